"""Generates properties.jsonl and MANIFEST.json from one description of the properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM, LAY, LAT = "nannos/simulation.py", "nannos/layers.py", "nannos/lattice.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


prop("P01", "Stacks of uniform layers obey the exact multilayer solution",
     "For every stack of homogeneous layers, lossless, lossy or metallic, of any thickness including zero and very thick, on any lattice and for any incidence, the efficiencies, the complex reflected and transmitted amplitudes and the fields inside every layer are those of the exact transfer through a multilayer. Only the zeroth order carries power, and describing a homogeneous layer by a constant permittivity map instead of a number, or changing names, lattice or number of harmonics, changes nothing.",
     ["inputs"], "all stacks of up to 14 homogeneous layers, materials, thicknesses, lattices, harmonics, wavelengths, incidence angles and polarizations away from exact Rayleigh anomalies",
     "unit tests check a few slabs at a few angles; the guarantee is over a continuum of materials, thicknesses and angles, and the numerically dangerous corners (grazing, evanescent, very thick, index matched) are not sampled",
     [SIM, LAY, "nannos/excitation.py"], [("modes of a uniform layer", "Layer.solve_uniform"), ("S-matrix recursion", "Simulation.get_S_matrix"), ("diffracted power", "Simulation.diffraction_efficiencies")],
     "runtime monitor: every answer compared online with a closed form oracle", "random stacks; closed form recursion per polarization with its own error estimate")
prop("P02", "Energy is conserved, and passive structures never create power",
     "For lossless structures the reflected and transmitted efficiencies add up to one, and the power flow through every plane inside the structure is the same, when the discretization preserves energy (the original formulation, and the tangent one in one dimension). For lossy structures reflection plus transmission is at most one, the power flow never increases along the direction of incidence, no efficiency is negative, and evanescent orders carry no power. Results are always real and finite.",
     ["inputs"], "all patterned and uniform stacks, isotropic or (Hermitian) anisotropic, in one and two dimensions, any number of harmonics and incidence",
     "tests check R+T=1 on two or three gratings with tolerances; conservation must hold for every pattern, truncation and angle, including nearly degenerate and strongly evanescent ones",
     [SIM, LAY], [("power of the orders", "Simulation.get_z_poynting_flux, diffraction_efficiencies"), ("branch of the eigenvalues", "Layer.solve_eigenproblem, solve_uniform")],
     "runtime monitor: conservation laws on executions", "random lossless and lossy stacks; tolerance scaled with the conditioning of the modes")
prop("P03", "Patterned stacks agree with an independent solution of Maxwell's equations",
     "The efficiencies and complex amplitudes of every order of a patterned structure are those obtained by solving the truncated Maxwell system independently, for each of the four formulations (original, tangent, jones, pol), for isotropic, anisotropic, lossy and metallic patterns, in one and two dimensions, for any tangent field and any set of harmonics.",
     ["inputs"], "all stacks of uniform and patterned layers, lattices, harmonics, formulations, tangent fields and incidence",
     "tests compare with a handful of published values; the formulas couple axes, components and harmonics so that an error can cancel for symmetric patterns, square grids or normal incidence, which is what the tests use",
     [SIM, LAY, "nannos/formulations/fft.py"], [("matrices of a patterned layer", "Simulation.build_matrix, _get_Peps"), ("eigenmodes", "Layer.solve_eigenproblem"), ("matching at the interfaces", "Simulation.get_S_matrix")],
     "runtime monitor: differential oracle (independent RCWA reference: first order E-field system, one dense solve)", "random stacks up to 50 harmonics; tolerance from the reference's own sensitivity")
prop("P04", "Fields are the Maxwell fields of the structure, however they are asked",
     "The fields returned in any layer and at any depth are those of the independent solution: tangential components are continuous across every interface, they satisfy Maxwell's equations in each layer, and in the superstrate the incident part is the documented plane wave. Fields on a real-space grid are the Fourier synthesis of the returned harmonics for any grid shape, and every selection of field, component, depth (scalar, list or array) and layer (index counted from either end, name or object) is the corresponding part of the full answer.",
     ["inputs"], "all stacks as in P03, all layers, depths, grid shapes, selections", "tests only call the field functions once or twice and check shapes; continuity and consistency quantify over all depths, layers and patterns",
     [SIM], [("amplitudes inside a layer", "Simulation._get_amplitudes, _solve_int, _translate_amplitudes"), ("fields from amplitudes", "Simulation.get_field_fourier, get_field_grid, get_ifft_amplitudes")],
     "runtime monitor: reference fields, continuity, residual of Maxwell's equations, synthesis", "random stacks and queries")
prop("P05", "The S-matrix is the scattering matrix of the range asked, and composes",
     "The scattering matrix of any range of layers is the one obtained by an independent dense solution, is the identity for an empty range, and two adjacent ranges compose by the Redheffer product into the matrix of the whole, in whatever order they are asked. Splitting a layer in two layers of the same material, or inserting layers of zero thickness, changes no scattering matrix of the outer layers and no efficiency.",
     ["inputs", "histories"], "all stacks of 2 to 8 layers, all ranges, all orders of the requests", "tests never look at intermediate ranges, and the cache of intermediate matrices depends on the order of the requests",
     [SIM], [("recursion and cache", "Simulation.get_S_matrix, _intermediate_S")],
     "runtime monitor: algebraic oracle (Redheffer composition) and dense reference", "random stacks, all ranges in random order")
prop("P06", "Results respect the exact symmetries of Maxwell's equations",
     "Efficiencies are unchanged when all lengths are scaled together, when all permittivities are scaled and the wavelength accordingly, when structure and incidence are rotated, when the pattern is translated, when the unit cell is relabelled (axes exchanged, reversed, sheared, doubled), when harmonics are listed in another order, when a 1D grating is described as 2D, or when the incidence angles are written in an equivalent way. Complex amplitudes are linear in the incident polarization, and lossless structures with symmetric permittivity are reciprocal.",
     ["inputs"], "pairs of problems related by 13 symmetries, all patterns, lattices, incidences, formulations with a given tangent field",
     "tests use fixed structures; symmetry relations compare two runs of the code and need no expected value, so they reach any structure",
     [SIM, LAT, "nannos/excitation.py"], [("wavevectors of the harmonics", "Simulation.__init__"), ("incident polarization", "PlaneWave.amplitude"), ("convolution matrices", "Simulation._get_toeplitz_matrix")],
     "runtime monitor: metamorphic relations between executions", "13 relations in turn on random problems")
prop("P07", "Truncation keeps exactly the harmonics it documents",
     "The harmonics kept are distinct integer pairs that include the zeroth order, are closed under inversion, number at most the amount asked (at least one), and are ordered by the length of their reciprocal vectors or sorted as asked; circular truncation keeps complete shells of the shortest reciprocal vectors, for any lattice however it is described, and the parallelogrammic one keeps a centred block of indices. One dimensional gratings keep a centred range, harmonics given by the user are used as they are, and a discretization too coarse for them is rejected, one that is sufficient is accepted.",
     ["inputs", "configurations"], "all lattices (skewed, elongated, left handed, 1D), requested numbers from 1 to 400, both schemes, precision and backend",
     "tests use square lattices and a couple of numbers of harmonics", [LAT, SIM], [("truncation", "_circular_truncation, _parallelogramic_truncation, _one_dim_truncation"), ("Nyquist criterion", "Simulation.__init__")],
     "runtime monitor: membership oracle over the reciprocal lattice", "random lattices and numbers of harmonics")
prop("P08", "Shapes rasterize to the points they contain",
     "The mask of a circle, ellipse, rectangle, square, polygon (with holes or in several parts) or stripe is true exactly at the grid points of the cell that lie inside the shape in real space, rotated as asked, on every lattice and grid, and nothing else is affected by shapes reaching outside of the cell. Masks have the shape of the grid, do not depend on previous shapes, and combine by the Boolean operations.",
     ["inputs"], "all shapes, rotations, lattices and rectangular grids; points closer to the boundary than the polygonal approximation are not judged",
     "tests draw a few shapes on a square lattice and look at nothing or at a sum", ["nannos/geometry.py", LAT], [("point in polygon", "geometry.shape_mask"), ("shapes", "Geometry, Lattice.circle/ellipse/rectangle/square/polygon/stripe")],
     "runtime monitor: pointwise membership oracle", "random shapes, lattices and grids")
prop("P09", "Lattice algebra is exact in every backend and precision",
     "Direct and reciprocal vectors are dual (up to the factor 2 pi), the area is the positive area of the cell, grids are the images of the unit grid by the lattice vectors, coordinate transforms are linear, and uniform arrays have the shape of the grid and the value asked. This holds for lattices given as tuples, lists or arrays, integer or real, left or right handed, tiny or huge, in all backends and both precisions, and layers made from a lattice belong to it.",
     ["inputs", "configurations"], "all lattices, backends and precisions", "tests use the square lattice and the default backend", [LAT], [("matrix, reciprocal, area, grid", "Lattice")],
     "runtime monitor: algebraic oracle", "random lattices in the five backends")
prop("P10", "Answers do not depend on the order of the questions",
     "Whatever sequence of public queries, solves and resets (of the simulation or of its layers) is made on a simulation, every answer equals the one of a new simulation asked only that question, and asking never modifies the inputs (layers' permittivities and tangent fields, lattice, excitation). What the caller does afterwards with the list of layers it gave does not change the simulation.",
     ["histories"], "all histories of queries (efficiencies, fields, S-matrices, stress, permittivities, fluxes, resets) on all stacks including copies of layers",
     "tests ask one or two questions to a simulation; caches of modes, S-matrices and amplitudes only matter for longer histories", [SIM, LAY],
     [("cached modes", "Layer.eigenvalues, eigenvectors, Simulation._is_solved"), ("cached S-matrices", "Simulation._intermediate_S"), ("copies", "Layer.copy, Simulation.build_matrix")],
     "runtime monitor: differential oracle over histories (fresh simulation), hashes of the inputs", "random histories of 3 to 12 actions",
     state=[("intermediate S-matrices", "cache keyed by the range of layers"), ("solved flags", "whether the modes on the layers belong to this simulation")])
prop("P11", "A modified structure, once reset, answers as a new one",
     "After thicknesses are changed and the scattering matrices reset, or permittivities (of the end layers too) or tangent fields are changed (assigned or in place) or another plane wave is assigned and everything reset, every answer is that of a simulation newly built from the current description, for any interleaving of changes, resets and queries.",
     ["histories"], "all histories of changes, resets and queries, including stacks with copies of layers", "tests modify at most one thickness once", [SIM, LAY],
     [("reset", "Simulation.reset, Layer.reset"), ("cached modes and matrices", "Simulation.build_matrix, solve")],
     "runtime monitor: differential oracle over histories with mutations", "random histories")
prop("P12", "Simulations that share layers do not influence each other",
     "Simulations built from the same layers, lattice and excitation, with other excitations, numbers of harmonics, formulations or orders of the layers, each give the answers of an isolated simulation, for every interleaving of their construction, queries and resets. So do copies (deepcopy, pickle) of a simulation made in any state.",
     ["histories", "schedules"], "all interleavings of queries of 2 to 4 simulations on shared layers or copies of them", "no test shares layers between simulations and queries the first one afterwards", [SIM, LAY],
     [("ownership of the modes on the layers", "Simulation.is_solved, Layer attributes"), ("copies", "Layer.copy")],
     "runtime monitor: differential oracle over interleavings", "random interleavings of 2 to 4 simulations")
prop("P13", "All backends and precisions compute the same thing",
     "The same problem solved with the numpy, scipy, autograd, torch and jax backends gives the same efficiencies, amplitudes, fields, scattering matrices, stress, permittivities, harmonics, masks, filters, projections and tangent fields to rounding, and in single precision the same to single precision.",
     ["configurations", "inputs"], "all problems, all five backends, both precisions", "tests run each backend on a few structures and rarely compare them", ["nannos/__init__.py", SIM, LAT, LAY, "nannos/optimize.py", "nannos/utils/helpers.py", "nannos/formulations/tangent.py"],
     [("backend dispatch", "set_backend, use_32_bit, get_types"), ("backend specific branches", "set_index, fourier_transform, transform, array")],
     "runtime monitor: differential oracle across backends", "random problems, backends in random order")
prop("P14", "Switching backend, precision or device leaves a consistent library",
     "After any sequence of valid switches of backend, precision and device, and of rejected unknown ones, every part of the library uses the backend and number types that were last selected, these are what the library reports, and a problem gives the same result as in a new interpreter. The environment variables select the backend at start-up, unknown values fall back to numpy, and asking for an unavailable GPU falls back to the CPU.",
     ["histories", "configurations"], "all sequences of set_backend, use_32_bit, use_gpu with valid, repeated and unknown values, and start-up environments", "tests switch in one fixed order and only look at the reported name",
     ["nannos/__init__.py"], [("reload of the submodules", "set_backend, _reload_package"), ("types", "use_32_bit, get_types")],
     "runtime monitor: state of all loaded modules after each switch of random histories", "random histories of 3 to 10 switches, new interpreters with environments")
prop("P15", "Parallel loops give the sequential result, once per item and in order",
     "A function decorated for parallel loops returns, for any iterable (list, tuple, array, generator, empty), extra arguments, number of jobs and kind of workers, the list of the results of each item in the order of the items, having called the function exactly once per item with the arguments given. An exception of one item is raised, and simulations run in parallel give the sequential values whatever the order in which the workers finish.",
     ["schedules", "inputs"], "all schedules of 1 to 8 threads or processes, random delays and switch intervals, all iterables and arguments", "the tests run one loop of a cheap function and do not look at the order or number of calls", ["nannos/parallel.py"],
     [("scheduling and collection", "parloop")], "runtime monitor: event log of calls (exactly once, order), sequential oracle under forced interleavings", "random workloads with injected delays")
prop("P16", "The adaptive sampler returns exact, ordered samples and stops as documented",
     "The samples returned are sorted, distinct, inside the initial interval, contain all the initial points, and each value is the value of the function at that point, for scalar and multiple outputs; the function is called once per point. Every point added is the midpoint of an interval between neighbours, and on return no interval next to a bend sharper than the threshold (or much longer than its neighbour) could still be refined without going below the minimal step or the minimal variation. The result does not depend on the order of the initial points or the number of jobs.",
     ["inputs"], "all functions (smooth, resonant, discontinuous, noisy, constant), initial points and thresholds", "tests sample one Lorentzian", ["nannos/sample.py"],
     [("refinement", "adaptive_sampler")], "runtime monitor: call log and invariants of the result", "random functions and settings")
prop("P17", "Gradients are the derivatives of the values computed",
     "With the autograd and torch backends, the gradient of any objective made of efficiencies, complex amplitudes, fields in Fourier or real space, stress or scattering matrices, with respect to density maps (through filter, projection and interpolation), permittivities, thicknesses, wavelength and incidence angles, is the derivative of the value the code computes, and both backends agree; further arguments of the objective, positional or by keyword, are those given. Values are the same with and without differentiation.",
     ["inputs", "programs"], "all objectives, design variables, structures, formulations away from degenerate modes", "tests check one density gradient", ["nannos/__init__.py", SIM, LAY, "nannos/optimize.py", "nannos/excitation.py"],
     [("automatic differentiation through the solver", "nannos.grad, Layer.solve_eigenproblem, bk.array")], "runtime monitor: central differences of the same executions with error bounds", "random problems and objectives")
prop("P18", "The topology optimizer runs the documented continuation and respects its bounds",
     "Every design evaluated is inside the bounds [0, 1]; the optimization runs the projection levels 2**i of the range asked in order, starting each from the result of the previous one, passes the extra arguments unchanged and the current level to the objective, and calls the callback once per evaluation with the arguments of that evaluation. The number of evaluations respects the limit (nlopt), a level ends as soon as a stop value is reached, and the returned value is the objective at the returned design, not worse than at the start, and the minimum for convex objectives. Running the levels in two batches, the second from the result of the first, is the same as running them at once, and settings changed on an optimizer are those of its next run. Gradients are taken at the design, level and arguments of an evaluation, tolerances given as options reach the solver, each with its own meaning, and the starting point, arguments and options given are not modified, for both methods and backends.",
     ["inputs", "histories"], "all objectives, bounds-active starting points, thresholds, iterations, stop values, methods (scipy, nlopt) and backends (autograd, torch)", "tests run one optimization for two iterations and look at no log", ["nannos/optimize.py"],
     [("continuation", "TopologyOptimizer.minimize, _optimize"), ("early stop", "OptimizeResult, StopFunError")], "runtime monitor: log of all evaluations and callbacks", "random optimizations")
prop("P19", "Density helpers interpolate, project and filter correctly",
     "Interpolation between two permittivities follows the SIMP power law and is exact at the ends, and for several materials it gives each listed material at equally spaced densities from 0 to 1; projection is the documented smooth threshold, maps 0 to 0 and 1 to 1, is monotone, keeps [0, 1], is antisymmetric under exchanging density and void, and the multi-level one is the mean of projections at equally spaced thresholds. Filtering is the periodic average with Gaussian weights exp(-d**2/r**2) of the documented radius: linear, translation covariant, mean and bound preserving, does nothing for a zero radius. None of them modifies its input, in any backend and precision.",
     ["inputs"], "all densities, shapes, exponents, thresholds, levels, radii, permittivities and backends", "tests call the helpers once", ["nannos/optimize.py", "nannos/utils/helpers.py"],
     [("interpolation and projection", "simp, project, multi_simp, multi_project"), ("filter", "apply_filter")], "runtime monitor: algebraic laws and direct evaluation", "random inputs in four backends")
prop("P20", "The stress on a layer is the momentum carried by the fields",
     "The stress tensor integrated at any depth of any layer equals that of the independent solution; in the uniform outer layers it is the momentum of the incident and diffracted orders, in lossless layers it does not depend on the depth where the material is homogeneous (all components in uniform layers, the normal one in patterned layers, the y one in layers invariant along y). Layers can be given by index, name or object.",
     ["inputs"], "all stacks as in P03, all layers and depths", "one test calls the function on one structure", [SIM], [("stress", "Simulation.get_z_stress_tensor_integral")],
     "runtime monitor: reference stress, momentum balance, conservation along z", "random stacks")
prop("P21", "Computed tangent fields follow the interfaces, in real space",
     "The tangent field computed for a patterned layer (either kind) is real, finite, of the shape of the grid, of unit length everywhere if normalized and of largest length one if not, and is on average parallel to the material interfaces in real space for any lattice, grid, contrast and material. It is the same up to a sign when the axes of the cell are exchanged, when the permittivity or the lattice is scaled, rotates with the lattice, follows the kind asked explicitly or set on the layer, and fields given by the user are used untouched; the Jones field derived from it has unit length, its major axis along the tangent, and goes from linear to circular with the length of the vectors.",
     ["inputs"], "all patterns, rectangular grids, lattices, both kinds, four backends", "tests call it on a disc in a square cell and only check that it runs", ["nannos/formulations/tangent.py", "nannos/formulations/jones.py", LAY],
     [("tangent fields", "_get_tangent_field_fft, _get_tangent_field_min"), ("Jones field", "get_jones_field")], "runtime monitor: geometric oracle and symmetries", "random patterns; threshold on the average alignment")
prop("P22", "Invalid problems and requests are rejected, and leave nothing behind",
     "Unknown formulations, truncations, backends, tangent field kinds, log levels, layer names and identifiers, fields and components, orders of the wrong form or not kept, formulations not available in one dimension, negative thicknesses, permeabilities other than one, duplicate names, different lattices in one stack, anisotropic uniform layers, harmonics without the zeroth order, too coarse grids, non-integer numbers of harmonics, 2D shapes on 1D lattices and gradients with backends that have none, all raise an exception instead of giving a result. The valid neighbours of these requests are accepted, and after a rejection the valid simulations still give the same answers.",
     ["inputs", "configurations"], "30 ways of being invalid applied to all problems in four backends, before or after solving", "tests check about ten of these on one structure, in one state", [SIM, LAY, LAT, "nannos/plot.py", "nannos/log.py"],
     [("validation", "Simulation.__init__, Layer.__init__, Lattice.__init__, _get_layer, get_order_index, get_field_grid")], "runtime monitor: rejection, acceptance and state after rejection", "30 kinds in turn on random problems")
prop("P23", "Results stay finite and accurate at the extremes",
     "For layers of any thickness (transparent, opaque or evanescent), hundreds of layers, periods much smaller than the wavelength, very high or almost vanishing contrasts, incidence very close to grazing and any unit of length, the results are finite, conserve energy, and are those expected: splitting or repeating layers composes, opaque layers hide what is below, very fine gratings are their effective medium, almost uniform layers are uniform ones.",
     ["inputs"], "all problems with extreme parameters, up to the limits of double precision", "tests use thicknesses, periods and contrasts of order one", [SIM, LAY],
     [("stable recursion", "Simulation.get_S_matrix"), ("branch of the eigenvalues", "Layer.solve_eigenproblem, solve_uniform")],
     "runtime monitor: splitting, composition, limits, conservation and scaling relations", "ten kinds of extremes in turn")
prop("P24", "All representations of the diffraction orders agree",
     "Totals are the sums over the orders; arrays list the orders in the order of the harmonics; dictionaries, single orders (an integer in 1D, a pair in 2D, of efficiencies or of complex amplitudes) and arrays give the same numbers, each of the order with these indices in the physical solution. The squared modulus of the complex amplitudes of a propagating order is its efficiency (lossless outer layers), reflected and transmitted quantities are never exchanged, and orders that are not kept are reported as errors.",
     ["inputs"], "all stacks, harmonics, backends and options", "tests call some of the options and do not compare them", [SIM], [("options", "Simulation.diffraction_efficiencies, get_order, get_order_index, get_orders_normal")],
     "runtime monitor: cross-checks of representations and physical labelling by the reference", "random stacks in four backends")
prop("P25", "Fourier transforms and reconstructions are the documented sums",
     "The permittivity reconstructed for a layer is the Fourier series of its pattern restricted to the harmonics used (exactly the pattern if the grid has no more points than harmonics, the constant for a uniform layer), real-space synthesis of amplitudes is linear and equals the direct sum over harmonics for any grid, and forward and inverse transforms are mutual inverses normalized as documented, along any axes, for a size other than that of the array (padded with zeros or cropped), and in every backend.",
     ["inputs"], "all patterns (isotropic, anisotropic), harmonics, grids, arrays and backends", "tests call these functions on one structure", [SIM, "nannos/formulations/fft.py"], [("transforms", "fourier_transform, inverse_fourier_transform"), ("synthesis", "Simulation.get_ifft_amplitudes, get_epsilon")],
     "runtime monitor: direct summation oracle", "random layers and arrays in all backends")
prop("P26", "Structures drawn with shapes diffract as these shapes",
     "When a structure is drawn with the geometry functions of the lattice (circles, ellipses, squares, rectangles, polygons, rotated or not, several per layer, stripes in one or two dimensions) and solved, the efficiencies of every order are those of the shapes themselves at these positions, sizes and orientations in real space (exact Fourier coefficients, same harmonics), on any lattice and rectangular grid, up to the sampling of the boundaries. For low contrasts the four formulations have converged to the same efficiencies.",
     ["inputs"], "all shapes, rotations, lattices, grids of more than 150 points per period (600 in 1D), materials and incidences", "tests solve one or two shapes, symmetric, on square grids; nothing links a shape in real space with the light it diffracts",
     ["nannos/geometry.py", LAT, SIM], [("shapes", "geometry.shape_mask, Lattice.circle/ellipse/rectangle/square/polygon/stripe"), ("from the grid to the convolution matrices", "Simulation._get_toeplitz_matrix"), ("formulations", "Simulation.build_matrix")],
     "runtime monitor: differential oracle fed with analytic Fourier coefficients", "random structures; the tolerance is the change of the reference when the boundaries move by about a pixel")
prop("P27", "Every log message is shown once, at the level asked",
     "Whatever the sequence of calls setting the log level and of switches of backend, precision and device, each message of the current level or above is written exactly once on the error stream, with its level, and messages below are not; the level stays the one last set, and unknown levels are refused. Results do not depend on the level, and nothing is written on the standard output by the solver.",
     ["histories", "configurations"], "all histories of level settings, backend, precision and device switches, followed by any work; with or without handlers of the application on the root logger",
     "no test looks at the log", ["nannos/log.py", "nannos/__init__.py", SIM], [("handlers and level", "set_log_level"), ("reload of the submodules", "_reload_package")],
     "runtime monitor: records made compared with the lines on the streams", "random histories and workloads", observe=["standard error and output while the workload runs", "log records, through logging.setLogRecordFactory"])
prop("P28", "Plots show the structure, in the right place",
     "A layer plot contains one tile per period asked, each translated by its lattice vectors, whose pixels show the real or imaginary part asked of the permittivity at their position, all inside the limits of the axes, with the outline of the cell if asked. A structure plot contains, for every period, one mesh per layer and material different from vacuum, made of exactly the pixels of that material, stacked in the order of the layers with the spacing and null thickness asked, with the colours given.",
     ["inputs"], "all 2D lattices (and 1D for structures), rectangular grids, periods, materials", "plot tests only check that nothing is raised", ["nannos/plot.py", LAY], [("layer plot", "plot_layer, plot_unit_cell"), ("structure plot", "plot_structure")],
     "runtime monitor: geometry handed over to the plotting libraries against the structure", "random layers and structures")

prop("P29", "A plane wave is the one documented, in every backend",
     "For any wavelength and angles in degrees (tuple, list, array or numbers of the backend; integers or reals; negative or above 360), the wavevector has the length 2 pi / wavelength and the direction of the polar and azimuthal angles, the polarization is a real transverse unit vector, in the plane of incidence for psi = 0 and perpendicular to it for psi = 90 degrees, the numbers have the precision selected, and the input is not modified. In a transparent structure all the power is transmitted, and the fields in every layer are those of this wave: E is the polarization divided by the refractive index, H is perpendicular to both, with the phase of the optical path from the top.",
     ["inputs", "configurations"], "all wavelengths, angles, types of input, backends, precisions, transparent stacks",
     "tests use a few angles and never look at the wave; conventions of sign and polarization cancel at normal incidence or in efficiencies",
     ["nannos/excitation.py", SIM], [("wavevector and polarization", "PlaneWave.__init__"), ("incident amplitudes and power", "Simulation._set_incidence")],
     "runtime monitor: closed form of the wave, and of its fields", "random waves in five backends and two precisions")


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "mon/checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in claimed:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
            a["observe_at"] = p["observe"] or ["the public API: return values and raised exceptions"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash bin/setup",
        "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                    "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in claimed],
        "not_applicable": [],
        "notes": "No hooks in /repo: the monitors observe the public API, wrap objects from outside, and read no source text.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
