#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the tables below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    P.append(dict(pid=pid, technique=technique, note=note, line=dict(
        id=pid, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None))))


ORACLE = ('runtime monitor: results of the real calls judged online against an independent numpy reference '
          'under randomised workloads')
LN = 'Random and boundary-biased workloads on a build of the working tree; holds for what was executed, not proved for all inputs.'

prop('P01', 'Shape functions and their derivatives',
     '''Every shape function the library evaluates (values, first and second derivatives, one term at a time or all
     terms at once) equals the hierarchical Bardell polynomial of that order and its exact derivatives at any
     natural coordinate in [-1, 1], for every term up to 30. The four edge flags (translation and rotation at each
     end) scale exactly the first four terms, so a component whose flags are 0 at an edge is exactly restrained there and
     the terms after the fourth never move or rotate an edge.''',
     ['inputs'], 'every term number 1..30, every coordinate of [-1,1], every combination of the four edge flags',
     '''Tests only look at a few eigenvalues with low-order terms; one wrong digit in one of 30x3 polynomials is invisible
     to them. The guarantee is over all terms, flags and coordinates.''',
     ['panels/core/src/bardell_functions.cpp', 'panels/core/include/bardell_functions.hpp', 'panels/bardell.pyx'],
     [('calc_f, calc_fp, calc_fpp, calc_vec_f, calc_vec_fp, calc_vec_fpp', 'panels/core/src/bardell_functions.cpp')],
     'runtime monitor: exact rational oracle on every evaluated shape function', LN,
     observe=['field evaluation', 'numerically integrated matrices'])

prop('P02', 'Closed-form integrals and quadrature rules are exact',
     '''Every tabulated integral over [-1, 1] of a product of two shape functions or their first and second derivatives,
     with the edge flags of both functions, equals the exact integral. Every Gauss-Legendre rule the library hands out, from 1 to 64
     points, has its points and weights right to machine precision, and an unsupported number of points is refused
     with an error instead of yielding wrong values.''',
     ['inputs'], 'every pair of terms (30x30) of every family of products, every combination of edge flags; every rule 1..64',
     '''The tables hold thousands of constants; tests touch a handful of combinations through one or two
     eigenvalues and cannot notice a wrong entry for another pair, flag or order.''',
     ['panels/core/src/bardell.cpp', 'panels/core/include/bardell.hpp', 'panels/core/src/legendre_gauss_quadrature.cpp',
      'panels/bardell.pyx', 'panels/legendre_gauss_quadrature.pyx'],
     [('integral_ff, integral_ffp, integral_ffpp, integral_fpfp, integral_fpfpp, integral_fppfpp', 'panels/core/src/bardell.cpp'),
      ('leggauss_quad, get_points_weights', 'panels/core/src/legendre_gauss_quadrature.cpp, panels/legendre_gauss_quadrature.pyx')],
     'runtime monitor: exact rational oracle on every tabulated integral and quadrature rule',
     'Exhaustive over the pairs of terms and rules, sampled over flags; the rest is sampling.')

prop('P03', 'Stiffness matrix is the strain energy',
     '''The constitutive stiffness matrix of a panel (flat or cylindrical) is, entry by entry, the second derivative of the strain energy of classical
     lamination theory with Donnell strains for the panel's own laminate (full A, B, D with offset or force-orthotropic), size, radius,
     boundary flags and constant loads N, and it is symmetric. This holds with the closed-form and the numerical integration,
     with laminate properties given per integration point, for a partial domain, for any placement inside a larger matrix and,
     with initial displacements, for the linearised non-linear strains; both integration routes agree.''',
     ['inputs', 'configurations'], '''all geometries, laminates (symmetric or not, anisotropic), offsets, boundary flags,
     numbers of terms, partial domains, load states and call styles of one panel''',
     '''Tests pin a few critical loads and frequencies of one laminate and boundary condition; most of the
     blocks of the matrix do not affect those numbers. The guarantee ranges over continuous inputs and 24 boundary flags.''',
     ['panels/shell.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx',
      'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('Shell.calc_kC', 'panels/shell.py'), ('fkC / fkC_num', 'panels/models/*.pyx')], ORACLE, LN,
     observe=['Shell.calc_kC'])

prop('P04', 'Geometric stiffness matrix is the work of the membrane stresses',
     '''The initial-stress (geometric) stiffness matrix of a panel is, entry by entry, the second derivative of the work done by the
     membrane stresses on the non-linear strains of w, for a uniform stress state as well as for stresses computed
     from a given displacement state with the panel's laminate; it is symmetric and linear in the stresses. It
     holds for both integration routes, per-point laminates, partial domains and any placement in a larger matrix.''',
     ['inputs', 'configurations'], '''all geometries, laminates, boundary flags, stress states (uniform Nxx, Nyy, Nxy or derived from
     Ritz constants), numbers of terms, partial domains''',
     '''Tests compare a few buckling loads, dominated by one stress component and the lowest modes.''',
     ['panels/shell.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx',
      'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('Shell.calc_kG', 'panels/shell.py'), ('fkG / fkG_num', 'panels/models/*.pyx')], ORACLE, LN, observe=['Shell.calc_kG'])

prop('P05', 'Mass matrix is the kinetic energy',
     '''The mass matrix of a panel is, entry by entry, the second derivative of the kinetic energy of the panel (translation, rotary inertia and the coupling due to an
     offset laminate) with the density and thickness of its plies, is symmetric and positive semi-definite, and gives a free rigid translation the panel's total mass. The closed-form
     and the numerical routes agree, with thickness and density per integration point, for partial domains and at any placement
     in a larger matrix.''',
     ['inputs', 'configurations'], 'all geometries, ply densities and thicknesses, offsets, boundary flags, numbers of terms, partial domains',
     '''Tests compare the lowest frequencies, where rotary inertia and offset coupling are invisible, with one density.''',
     ['panels/shell.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx',
      'panels/models/cylshell_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('Shell.calc_kM', 'panels/shell.py'), ('fkM / fkM_num', 'panels/models/*.pyx')], ORACLE, LN, observe=['Shell.calc_kM'])

prop('P06', 'Internal force and tangent stiffness are consistent',
     '''The internal force vector of a displacement state is the gradient of the strain energy with von Karman/Donnell
     non-linear strains, zero at rest and linear for small states; the tangent stiffness of a panel, and of an assembly, is the
     derivative of that internal force. This holds at any amplitude, for per-point laminates, partial domains and any
     quadrature order, for states without membrane shear from w,x w,y as well as with it (there up to the listed known finding).''',
     ['inputs', 'configurations'], 'displacement states of any amplitude, all panels and laminates, quadrature orders, assemblies',
     '''Tests run one non-linear analysis; a wrong term only slows convergence or shifts one equilibrium by a small amount.''',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/models/plate_clpt_donnell_bardell_num.pyx',
      'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('Shell.calc_fint, Shell.calc_kT', 'panels/shell.py'), ('MultiDomain.calc_fint, calc_kT', 'panels/multidomain/multidomain.py'),
      ('calc_fint', 'panels/models/*_num.pyx')],
     'runtime monitor: numpy energy gradient plus directional-derivative (kT vs fint) oracle on real calls', LN,
     observe=['Shell.calc_fint', 'Shell.calc_kT', 'MultiDomain.calc_kT'])

prop('P07', 'External force vector is the virtual work of the loads',
     '''The external force vector of a panel or assembly is the virtual work of exactly the point loads, line loads
     and prescribed edge displacements that were added, at their own positions and in their own directions: constant
     loads enter once and incremented loads times the load factor. Loads accumulate linearly in any order of definition, and
     each reaches only the degrees of freedom of the panel it was added to.''',
     ['inputs', 'histories'], 'any sequence of added loads (constant or incremented), positions, functions along lines, load factors, panels',
     '''Tests use one or two loads at convenient positions with load factor 1.''',
     ['panels/shell.py', 'panels/shell_fext.py', 'panels/multidomain/multidomain.py'],
     [('add_point_load, add_distr_load_fixed_x/y, add_point_pd, add_distr_pd_fixed_x/y', 'panels/shell_fext.py, panels/shell.py'),
      ('Shell.calc_fext, MultiDomain.calc_fext', 'panels/shell.py, panels/multidomain/multidomain.py')], ORACLE, LN,
     observe=['Shell.calc_fext', 'MultiDomain.calc_fext'])

prop('P08', 'Constraint penalties act exactly where requested',
     '''Point constraints and line constraints (prescribed displacements along x or y lines) add to the stiffness the penalty constant times the
     squared requested component, evaluated at the point or integrated along the line, and nothing else.
     Components that were not requested, other degrees of freedom and other panels are not stiffened, and with a
     growing penalty the response at the constrained place tends to the prescribed value.''',
     ['inputs', 'configurations'], 'all panels, boundary flags, positions, subsets of constrained components, penalty values',
     '''Tests constrain one component at one edge; a penalty on a wrong degree of freedom or a wrong position is not exercised.''',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/multidomain/connections/penalties.py',
      'panels/multidomain/connections/kCpd.pyx'],
     [('point constraints and prescribed displacements of calc_kC', 'panels/shell.py'), ('fkCpd, fkCld_xcte, fkCld_ycte', 'panels/multidomain/connections/kCpd.pyx')],
     ORACLE, LN, observe=['Shell.calc_kC'])

prop('P09', 'Aerodynamic matrices follow piston theory',
     '''The aerodynamic stiffness matrix is the virtual work of the piston-theory pressure for flow along x or y, with its coefficients
     given or derived from Mach number, velocity, air density and radius as documented (re-derived whenever those
     change), on the panel or on its partial domain (up to the listed known finding); the aerodynamic damping matrix is that of the
     pressure proportional to the velocity of w. Flow conditions without a supersonic solution or an unknown
     flow direction are refused with an error.''',
     ['inputs', 'histories'], 'flow directions, flow conditions, coefficients, panels, partial domains, order of evaluations',
     '''Tests check one flutter speed; the damping matrix and the y flow are never evaluated.''',
     ['panels/shell.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('Shell.calc_kA, Shell.calc_cA', 'panels/shell.py'), ('fkAx_num, fkAy_num, fcA', 'panels/models/*.pyx')], ORACLE, LN,
     observe=['Shell.calc_kA', 'Shell.calc_cA'])

prop('P10', 'Displacement, strain and stress fields',
     '''Displacements and rotations, linear or non-linear strains and stress resultants reported for a Ritz state equal
     the series and its derivatives evaluated at exactly the requested positions, in the shape of the requested
     grid and for each panel of an assembly with that panel's own part of the state. The values do not
     depend on the number of threads or on the other positions requested, and states of the wrong size or mismatched positions are refused.''',
     ['inputs', 'schedules', 'configurations'], 'states, grids of any shape and size, thread counts, panels and assemblies, groups',
     '''Tests look at a few plots or one value at one grid; remainders of the work split between threads and unusual grids are untested.''',
     ['panels/shell.py', 'panels/models/clpt_bardell_field.pyx', 'panels/multidomain/multidomain.py'],
     [('Shell.uvw, strain, stress', 'panels/shell.py'), ('fuvw, fstrain', 'panels/models/clpt_bardell_field.pyx'),
      ('MultiDomain.uvw, strain, stress and *_gauss_points', 'panels/multidomain/multidomain.py')], ORACLE, LN,
     observe=['Shell.uvw', 'Shell.strain', 'Shell.stress', 'MultiDomain.*'])

prop('P11', 'Partial domains add up to the whole',
     '''The matrices and the internal force of a panel integrated over disjoint parts that tile it (split along x, y or both) sum up to those of the whole panel, for
     stiffness, geometric stiffness, mass, aerodynamic and tangent matrices. An empty part contributes nothing, and limits equal to
     the full panel give the same result as no limits, with either integration route.''',
     ['inputs', 'configurations'], 'all cuts of all panels into tiles; states; quadrature orders that are exact for the polynomials',
     '''Tests integrate over one partial domain at most; additivity relates several evaluations.''',
     ['panels/shell.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('x1, x2, y1, y2 limits in calc_kC, calc_kG, calc_kM, calc_kA, calc_fint', 'panels/shell.py, panels/models/*.pyx')],
     'runtime monitor: metamorphic (additivity) oracle over real evaluations', LN)

prop('P12', 'Assembly matrices are the panels placed block by block',
     '''Every matrix and vector of an assembly equals the separately evaluated panels placed on their own degrees of freedom, in the order the
     panels were listed, plus the connection terms (in the stiffness and tangent stiffness); the size is the sum of the panels' sizes.
     Reordering the panels only permutes the result, a panel evaluated at a given row and total size yields exactly its block there and nothing outside it,
     and sizes or positions that do not fit are refused.''',
     ['inputs', 'configurations'], 'assemblies of any number of flat and curved panels with different numbers of terms, laminates, loads and states',
     '''Tests hold a few assemblies of panels with identical numbers of terms, in which misplaced blocks can go unnoticed.''',
     ['panels/multidomain/multidomain.py', 'panels/shell.py'],
     [('MultiDomain.calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext, get_size', 'panels/multidomain/multidomain.py')],
     'runtime monitor: block-placement oracle over assembly and panel calls', LN, observe=['MultiDomain.*'])

prop('P13', 'Connections are penalty energies of the gap',
     '''Each connection between two panels of an assembly (edge to edge along x or y, blade foot along x or y, face to face) adds to the stiffness
     exactly the penalty energy of the displacement and rotation gap along the connected line or area, with penalty
     constants given or computed from the two laminates as documented. Compatible motions store no energy, the result
     does not depend on which panel of an edge connection is named first nor on earlier connectivities, the user's connectivity is not
     altered and unknown connections are refused.''',
     ['inputs', 'configurations', 'histories'], 'pairs of panels, connection types, positions, penalty constants, order of naming, sequences of connectivities',
     '''Tests compare critical loads of assemblies, which a stiff penalty makes insensitive to factors, signs and missing terms.''',
     ['panels/multidomain/multidomain.py', 'panels/multidomain/connections/penalties.py', 'panels/multidomain/connections/kCSSxcte.pyx',
      'panels/multidomain/connections/kCSSycte.pyx', 'panels/multidomain/connections/kCBFxcte.pyx',
      'panels/multidomain/connections/kCBFycte.pyx', 'panels/multidomain/connections/kCSB.pyx'],
     [('MultiDomain.get_kC_conn', 'panels/multidomain/multidomain.py'), ('calc_kt_kr', 'panels/multidomain/connections/penalties.py'),
      ('fkC*11, fkC*12, fkC*22', 'panels/multidomain/connections/*.pyx')], ORACLE, LN, observe=['MultiDomain.get_kC_conn'])

prop('P14', 'Stiffened bay is the sum of its parts',
     '''The stiffness, geometric stiffness, mass and aerodynamic matrices and the force vector of a stiffened bay equal the skin panels, stiffener
     bases and flanges evaluated separately on their own parts of the domain and degrees of freedom, plus the skin-flange connection or the
     beam terms of the one-dimensional stiffeners at their own position (as documented in the code for their coefficients). The size of the system,
     the skin field and the flange field always refer to the same numbering of the degrees of freedom, and a bay without
     stiffeners behaves as the single panel.''',
     ['inputs', 'configurations'], 'bays with any number of skin panels, 1-D and 2-D blade stiffeners with or without base or flange, loads, flow',
     '''No stable test covers the stiffened bay.''',
     ['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py',
      'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'],
     [('StiffPanelBay.calc_kC, calc_kG, calc_kM, calc_kA, calc_cA, calc_fext, uvw_skin, uvw_stiffener', 'panels/stiffpanelbay/stiffpanelbay.py'),
      ('BladeStiff1D, BladeStiff2D', 'panels/stiffener/*.py')], ORACLE, LN, observe=['StiffPanelBay.*'])

prop('P15', 'Results do not depend on the history of calls',
     '''Any evaluation (matrix, vector or field of a panel, assembly or stiffened bay) returns the same result whatever was evaluated before it on the same object or on others,
     in any order and any number of times, and after loads, constraints, boundary flags, geometry, flow conditions or
     connectivity were changed it equals that of a fresh object defined that way. No evaluation alters the arrays, loads, connectivity or
     options passed to it, nor results returned earlier.''',
     ['histories', 'inputs'], 'sequences of evaluations and edits over panels, assemblies and bays',
     '''Each test makes a fresh object and evaluates it once, in the order the analysis needs.''',
     ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
     [('_rebuild, cached matrices and fields', 'panels/shell.py'), ('cached kC_conn', 'panels/multidomain/multidomain.py')],
     'runtime monitor: fresh-object differential oracle over random call histories', LN)

prop('P16', 'Saving and loading keeps the model',
     '''A panel or a stiffened bay that is saved and loaded again has the definition of the one that was saved (geometry, laminate, boundary flags, loads, constraints) and yields the
     same matrices, force vectors and fields. Saving leaves the object usable with unchanged results, works at any point of its history,
     and writes only the file named after the object.''',
     ['histories', 'inputs'], 'panels and bays at any point of a sequence of evaluations, any names and directories',
     '''No stable test saves and loads.''',
     ['panels/shell.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
     [('Shell.save, load', 'panels/shell.py'), ('StiffPanelBay.save, load', 'panels/stiffpanelbay/stiffpanelbay.py')],
     'runtime monitor: round-trip oracle over random histories in a scratch folder', LN)

prop('P17', 'No memory error or undefined behaviour in the compiled code',
     '''No call of the public interface reads or writes outside its buffers, uses freed or uninitialised memory, or runs into undefined behaviour in
     the compiled modules, for valid input of any size up to the documented limits. Input of a wrong size, type, shape or range
     (number of terms or quadrature points, position in a larger matrix, state vector, grid, per-point laminates)
     is refused with an exception, and never ends the process.''',
     ['inputs', 'configurations', 'schedules'], 'all public evaluations with extreme and invalid sizes, grids, thread counts',
     '''The compiled modules are built without bounds checks; reading past a buffer usually still gives plausible numbers, and tests use no invalid input.''',
     ['panels/models/clpt_bardell_field.pyx', 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/bardell.pyx',
      'panels/core/src/bardell_functions.cpp', 'panels/core/src/legendre_gauss_quadrature.cpp', 'panels/shell.py', 'panels/shell_fext.py'],
     [('size checks before the compiled loops', 'panels/shell.py, panels/models/*.pyx, panels/*.pyx')],
     'AddressSanitizer + UndefinedBehaviorSanitizer build and bounds-checked build under stress workloads', LN)

prop('P18', 'Parallel field evaluation is free of races and deterministic',
     '''Evaluating fields with any number of threads touches every output entry exactly once, with no unsynchronised
     conflicting accesses between threads, whatever the interleaving. Repeated evaluations give bit-identical results,
     also when several fields are evaluated concurrently by several threads of the calling program on different objects.''',
     ['schedules'], 'thread counts, interleavings (forced orders of the parallel parts), grids, concurrent callers',
     '''Tests run whatever schedule happens once and compare a few values; races show up only in rare interleavings.''',
     ['panels/models/clpt_bardell_field.pyx'],
     [('prange over the chunks of the grid in fuvw and fstrain', 'panels/models/clpt_bardell_field.pyx')],
     'ThreadSanitizer build with a controlled OpenMP runtime, plus schedule perturbation and determinism oracle', LN)

prop('P19', 'Ready-made analyses solve the problem they describe',
     '''Each ready-made analysis (cylinders with or without blade stiffeners under compression, T-stiffened panels in compression,
     free vibration and flutter) assembles panels and connections for exactly the requested geometry, laminate, load and boundary, with the
     loads of each panel proportional to its own share. The eigenvalues and modes or the static solution it returns satisfy the eigenvalue or equilibrium equations of that
     assembly, and scale as the theory demands when sizes, stiffnesses and loads are scaled.''',
     ['inputs', 'configurations'], 'dimensions, laminates, number of panels and terms, defects and modes of the ready-made analyses',
     '''Tests pin one value per analysis for one set of arguments.''',
     ['panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py', 'panels/multidomain/tstiff2d_1stiff_compression.py',
      'panels/multidomain/tstiff2d_1stiff_freq.py', 'panels/multidomain/tstiff2d_1stiff_flutter.py'],
     [('cylinder_compression_lb_Nxx_cte, cylinder_compression_lb_Nxx_from_static', 'panels/multidomain/cylinder.py'),
      ('tstiff2d_1stiff_compression, tstiff2d_1stiff_freq, tstiff2d_1stiff_flutter', 'panels/multidomain/tstiff2d_1stiff_*.py')],
     'runtime monitor: online matrix oracles and eigen-residual checks inside the ready-made analyses', LN)

prop('P20', 'Plots show the field they name',
     '''Every contour plot of a panel, of a group of panels of an assembly, and of the skin or a flange of a stiffened bay draws, for each panel it names,
     exactly the requested component of the given state at the true positions of that panel (its own offset, the requested grid, positions
     or deformation), on one scale that spans the given limits or else the extremes of the drawn field over all the panels; the limits it reports are those. Plotting
     changes neither the state nor the fields and positions evaluated before, writes only the requested file and only when asked to, and
     refuses unknown components and axes.''',
     ['inputs', 'histories'], 'states, components, grids, positions, limits, groups, plotting options and earlier evaluations',
     '''No test looks at what a plot contains; a wrong panel, scale, offset or stale field still yields an image.''',
     ['panels/plot_shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
     [('plot_shell', 'panels/plot_shell.py'), ('MultiDomain.plot', 'panels/multidomain/multidomain.py'),
      ('StiffPanelBay.plot_skin, StiffPanelBay.plot_stiffener', 'panels/stiffpanelbay/stiffpanelbay.py')],
     'runtime monitor: recorder on the calls to matplotlib (contours, colour bars, files) judged against an independent reference of the fields', LN)

prop('P21', 'Converged solutions agree with the exact ones',
     '''With enough terms, buckling loads, frequencies, aeroelastic eigenvalues and static displacements computed from the matrices and load vectors of a panel
     converge to the exact solutions of plate, shallow shell and beam theory where those are known (simply supported cross-ply plates and
     cylindrical panels, strips with every pair of end conditions, bars and cantilevers). Beyond the linear range, Newton's method with the tangent stiffness and the internal
     force finds the exact buckled shapes of shortened strips and the exact states of strips and shallow arches under pressure. Buckling loads and frequencies approach from above: they never lie below the exact
     values and never rise when terms are added. A panel cut into parts that are connected again behaves as the whole within the softness of
     the connections.''',
     ['inputs', 'configurations'], 'geometries, cross-ply laminates, offsets, stress states, flow conditions, end conditions, numbers of terms and subdivisions',
     '''Tests pin a few eigenvalues obtained from the code itself; they cannot tell whether the whole chain from flags and laminate to the
     eigenvalue solves the physical problem for other inputs.''',
     ['panels/shell.py', 'panels/shell_fext.py', 'panels/models/', 'panels/core/src/bardell.cpp', 'panels/multidomain/multidomain.py'],
     [('Shell.calc_kC, calc_kG, calc_kM, calc_kA, calc_fext, uvw', 'panels/shell.py'), ('MultiDomain.calc_kC, calc_kG, calc_kM', 'panels/multidomain/multidomain.py')],
     'runtime monitor: eigenvalues and displacements of the real matrices against closed-form solutions, bounds and monotonicity', LN)

prop('P22', 'Equivalent descriptions of the same structure give the same results',
     '''However a panel, assembly or stiffened bay is described, the matrices, load vectors and fields are the same after the change of coordinates or units that
     relates the descriptions: single values or one per ply, plies split into thinner ones, angles turned by 180 degrees, the short form of an isotropic material, values
     inherited from the bay or left to their documented defaults (simply supported edges, no loads, whole domain, model chosen from the radius) or given explicitly,
     other units of length, force and mass, the structure mirrored along x or y, x and y exchanged, turned over (plies reversed), a very large radius or none, panels and
     stiffeners listed in another order.''',
     ['inputs', 'configurations'], 'panels, assemblies and bays, and all series of one to four such changes of description',
     '''Tests describe each structure once; a value that is ignored, a default that changed, a sign or an index that is right for one orientation only, or a tolerance
     with units shows only between two descriptions.''',
     ['panels/shell.py', 'panels/shell_fext.py', 'panels/models/', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/'],
     [('Shell, calc_kC, calc_kG, calc_kM, calc_kA, calc_kT, calc_fint, calc_fext, uvw, strain, stress', 'panels/shell.py'), ('MultiDomain.calc_*', 'panels/multidomain/multidomain.py'),
      ('StiffPanelBay.add_panel, add_bladestiff1d, add_bladestiff2d, calc_*', 'panels/stiffpanelbay/stiffpanelbay.py')],
     'runtime monitor: metamorphic oracle over pairs of descriptions with an exact map of the degrees of freedom', LN)

PY = '/opt/venv/bin/python'
claimed = [p for p in P if os.path.exists(os.path.join(HERE, 'vlib', 'checks', p['pid'].lower() + '.py'))]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p['line']) + '\n')
man = dict(version=1, setup_cmd='true',
           hooks=dict(guard='none', enable='no hooks in /repo: monitors wrap the public calls at run time, sanitizers are added by building a scratch copy', source_commits=[]),
           checks=[dict(property=p['pid'], quick_cmd='python3 check.py %s --tier quick' % p['pid'],
                        thorough_cmd='python3 check.py %s --tier thorough' % p['pid'],
                        technique=p['technique'], level='exploration', level_note=p['note']) for p in claimed],
           not_applicable=[dict(property=p['pid'], reason='check not built yet') for p in P if p not in claimed])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(claimed), 'claimed')
