AI = "static analysis: abstract interpretation of the instantiated AST (constant propagation + exact polynomial value numbering)"
AINOTE = ("Every path of the analysed functions is covered by joining branches; values are exact rational functions of "
          "symbolic inputs. Trusted: the clang AST exporter, the transfer functions for Eigen/libstdc++, idealised (exact) "
          "real arithmetic. Constructs outside the domain are reported as undecided in the evidence, never as violations.")

prop("Q01", "Quadrature rules are exact up to their nominal degree",
     "Every numerical integration rule on a segment, triangle or tetrahedron, asked for degree d inside its documented range, "
     "integrates every polynomial of degree at most d exactly (up to rounding of its tables), on any segment, triangle or "
     "tetrahedron.",
     ["inputs"], "for all degrees of the documented range, all polynomials up to the degree and all vertex positions",
     "unit tests evaluate a few monomials on one or two elements for some degrees; a wrong entry of a high-degree table or a "
     "wrong weight for general vertices is not exercised",
     ["quadratures/bits/quad_raw_triangle.hpp", "quadratures/bits/quad_raw_tetra.hpp", "quadratures/bits/quad_raw_gauss.hpp",
      "quadratures/bits/quad_raw_gauss_lobatto.hpp", "libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp",
      "libdiskpp/contrib/jburkardt/src/simplex_gm_rule.cpp"],
     [("rule tables and their mapping to the element", "quadratures/bits/quad_raw_triangle.hpp")],
     claim=(AI, "other", AINOTE + " Tables are constant-folded and compared with exact moments at tolerance 2e-12."))

prop("Q02", "Quadrature degrees beyond the tables are refused, never answered weakly",
     "A request for a degree that no stored rule can honour ends in an error; it never returns an empty rule, a rule that is "
     "too weak, or data read past the end of a table.",
     ["inputs"], "for all degrees above the documented range of each rule",
     "the tests only ask for degrees that exist; the behaviour one past the end of a table is never exercised",
     ["quadratures/bits/quad_raw_triangle.hpp", "quadratures/bits/quad_raw_gauss.hpp",
      "quadratures/bits/quad_raw_gauss_lobatto.hpp", "libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp"],
     [("degree range guards", "quadratures/bits/quad_raw_gauss.hpp")],
     claim=(AI, "other", AINOTE + " Degrees max+1..max+4, +7, +20, +100 and +1000 are interpreted; other degrees are not."))

prop("Q03", "integrate(mesh, element, degree) is exact on every physical element",
     "On every cell and face of every mesh family, integrate(mesh, element, degree) returns nodes on the element and weights "
     "that integrate every polynomial of total degree at most `degree` exactly (up to rounding), including bilinear "
     "quadrilaterals, polygons (convex or not) and polyhedra.",
     ["inputs"], "for all vertex positions of the element family, all degrees supported by the rule and all polynomials up to it",
     "the tests integrate a few monomials on fixed meshes; a quadrature that is exact on squares but not on general "
     "quadrilaterals, or for even but not odd degrees, passes them",
     ["quadratures/bits/quad_phys_generic.hpp", "quadratures/bits/quad_phys_simplicial.hpp",
      "quadratures/bits/quad_phys_cartesian.hpp", "quadratures/bits/quad_raw_gauss.hpp",
      "geometry/geometry_generic_triangulations.hpp", "quadratures/bits/raw_simplices.hpp"],
     [("element decomposition and mapping of the rules", "quadratures/bits/quad_phys_generic.hpp")],
     claim=(AI, "other", AINOTE + " Shapes other than general simplices, rectangles, boxes and convex quadrilaterals are "
            "analysed as arbitrary affine images of a catalogue of reference polygons/polyhedra."))

prop("G01", "Measures, barycenters and diameters are the geometric ones",
     "measure() of any cell or face equals its length/area/volume, barycenter() its centroid (the vertex average for "
     "polyhedra and polygonal faces), and diameter() the largest distance between two of its vertices; the result depends "
     "neither on the position nor on the vertex numbering of the element.",
     ["inputs"], "for all non-degenerate elements of the simplicial, cartesian and generic families in 1D, 2D and 3D",
     "the tests check a handful of elements of structured meshes; nonconvex polygons, general affine shapes and "
     "unusual vertex orders are not among them",
     ["geometry/geometry_all.hpp", "geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp",
      "geometry/geometry_hexahedral.hpp", "common/simplicial_formula.hpp", "quadratures/bits/raw_simplices.hpp"],
     [("measure/barycenter/diameter overloads", "geometry/geometry_generic.hpp"),
      ("Kahan area and tetrahedron volume", "common/simplicial_formula.hpp")],
     claim=(AI, "other", AINOTE + " Elements are symbolic affine images (det > 0) of a catalogue of reference shapes."))

prop("G02", "Face normals are unit, orthogonal to the face and point outward",
     "normal(mesh, cell, face) returns a unit vector orthogonal to the face and pointing out of the cell, for every face of "
     "every convex cell of every mesh family.",
     ["inputs"], "for all convex cells, all their faces and all vertex numberings",
     "fluxes and stabilisations silently change sign when one face of one element family is oriented wrongly; the tests "
     "only see divergence-theorem sums on structured meshes",
     ["geometry/geometry_all.hpp", "geometry/geometry_generic.hpp"],
     [("normal()", "geometry/geometry_all.hpp")],
     claim=(AI, "other", AINOTE + " Elements are symbolic affine images (det > 0) of a catalogue of convex reference shapes."))

prop("G03", "Bounding boxes, point-in-cell, convexity and element axes are right",
     "diameters() and bb_barycenter() give the size and centre of the bounding box of a cell or face, diameter_boundingbox() that "
     "box along given axes, average_diameter() the mean cell diameter; is_inside() holds exactly for the points of a convex "
     "polygon or tetrahedron including its boundary, is_convex() exactly for convex polygons, in any vertex order the family "
     "allows; inertia axes are those of the second moments about the barycentre, the scaled ones normalised by diameter and "
     "principal moment, and local axes are orthogonal and non-zero, the first one along the first edge.",
     ["inputs"], "for all cells, vertex orders and query points",
     "only boxes and one or two points are ever queried by a test; a wrong side, an order-dependent answer or a missing "
     "coordinate shows on cells and points that no test contains",
     ["geometry/geometry_all.hpp", "geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_cartesian.hpp"],
     [("is_inside(), is_convex()", "geometry/geometry_generic.hpp"), ("diameters(), inertia_axes()", "geometry/geometry_all.hpp")],
     claim=(AI, "other", AINOTE + " Every pattern of order and equality of the coordinates for small cells, exact orientation signs on "
            "points of every region of a catalogue of polygons and tetrahedra, exact second moments."))

prop("P01", "Points and rationals obey exact vector and fraction arithmetic",
     "Sums, differences, negation, scaling, quotients, midpoints, distances, conversions and element access of points act on every "
     "coordinate, at() refuses a coordinate outside the dimension; rational numbers keep the exact value of every operation "
     "and comparison with a positive denominator, simplify() gives lowest terms and gcd/lcm are those of the integers.",
     ["inputs"], "for all coordinates, dimensions 1 to 3, and all numerators and denominators without overflow",
     "signs, zero and common divisors decide whether a fraction is right, a sample of values does not reach them",
     ["mesh/point.hpp", "mesh/rational.hpp"],
     [("point<T,DIM>", "mesh/point.hpp"), ("rational<I>", "mesh/rational.hpp")],
     claim=(AI, "other", AINOTE + " Points with symbolic coordinates, rationals with symbolic numerators and denominators and with constants "
            "of all signs and common divisors."))

prop("B01", "Scalar polynomial bases span P^k, hierarchically, starting with the constant",
     "A scalar basis of degree k on a cell or face has size() = dim P^k linearly independent functions of degree at most k "
     "(its declared degree), starts with the constant, the basis of degree k is a prefix of the one of degree k+1, and values "
     "depend on the element's shape only, not on its size or position; Legendre families are orthonormal and the "
     "harmonic-enriched family adds exactly the harmonic polynomials.",
     ["inputs"], "for all degrees, elements and evaluation points",
     "tests run whole HHO computations at one or two degrees; a duplicated or missing function at another degree or a broken "
     "normalisation only changes conditioning or rates",
     ["bases/bases_scalar.hpp", "bases/bases_all.hpp", "bases/bases_new.hpp"],
     [("eval_functions of every scalar basis", "bases/bases_scalar.hpp"), ("scaling and axes of the element", "bases/bases_all.hpp")],
     claim=(AI, "other", AINOTE + " Degrees 0..4 (thorough 0..6) are instantiated; element geometry is concrete rational or opaque symbolic."))

prop("B02", "Gradients, divergences and curls are the derivatives of the basis functions",
     "For every basis that offers them, eval_gradients / eval_sgradients / eval_divergences / eval_curls return, function by "
     "function, the exact partial derivatives of what eval_functions returns, at every point of every element.",
     ["inputs"], "for all elements, points, degrees and scalings",
     "a derivative that misses a chain-rule factor is invisible on unit-sized elements and in low degree",
     ["bases/bases_scalar.hpp", "bases/bases_vector.hpp", "bases/bases_new.hpp"],
     [("eval_gradients", "bases/bases_scalar.hpp"), ("eval_divergences, eval_curls", "bases/bases_vector.hpp")],
     claim=(AI, "other", AINOTE + " Formal differentiation of the interpreted function values; degrees up to 3 (thorough 5); element "
            "geometry is opaque symbolic. The deprecated 3D eval_curls of the vector basis is not claimed."))

prop("B03", "Vector and matrix bases span exactly the spaces they are named after",
     "The vector, matrix, symmetric-matrix, Raviart-Thomas, tangential and Nedelec bases of degree k have size() linearly "
     "independent functions spanning the announced space, and the *_basis_size formulas return its dimension.",
     ["inputs"], "for all degrees and elements the basis is offered for",
     "the less used families and degrees are not instantiated by any test",
     ["bases/bases_vector.hpp", "bases/bases_matrix.hpp"],
     [("vector/matrix eval_functions", "bases/bases_vector.hpp"), ("Raviart-Thomas families", "bases/bases_matrix.hpp")],
     claim=(AI, "other", AINOTE + " Degrees up to 4 (thorough 5) are instantiated; exact rank computations over Q."))

HD = "methods/implementation_hho/"
prop("H05", "HHO reconstructions solve their defining equations exactly",
     "Every local reconstruction (scalar/vector laplacian with and without diffusion tensor, projected-face and harmonic variants, "
     "gradient, symmetric gradient, Raviart-Thomas variants, divergence) returns an operator satisfying its defining "
     "variational equations for every unknown, with the closure (mean value, rigid rotations) it documents; so it reproduces the "
     "gradient of every polynomial of its degree, and the returned form is the energy of the operator.",
     ["inputs"], "for all cells and all admissible cell/face/reconstruction degrees, equal or mixed per face",
     "convergence tests accept any consistent operator at equal orders; a wrong block for mixed degrees, another face count or "
     "an anisotropic tensor goes unnoticed",
     [HD + "scalar_hho_laplacian.hpp", HD + "vector_hho_gradrec.hpp", HD + "vector_hho_laplacian.hpp", HD + "matrix_hho_gradrec.hpp", HD + "scalar_hho_divrec.hpp"],
     [("make_scalar_hho_laplacian and variants", HD + "scalar_hho_laplacian.hpp"),
      ("vector and matrix gradient reconstructions", HD + "vector_hho_gradrec.hpp")],
     claim=(AI, "other", AINOTE + " Integrals are exact moments of abstract quadratures on concrete rational cells (triangle, nonconvex "
            "pentagon, tetrahedron); degree combinations up to order 3."))

prop("H06", "Stabilisations vanish on polynomials and control every unknown",
     "Every local stabilisation (HHO, HDG, DG; scalar and vector; with tensor; with mixed face degrees) is symmetric, positive "
     "semidefinite, equal to the documented form including the requested scaling length (face or cell diameter), zero on the "
     "interpolates of the polynomials the method preserves, and with its reconstruction vanishes only on constants (rigid motions).",
     ["inputs"], "for all cells, degrees and scaling options",
     "the tests sum norms on fixed meshes at equal order; a missing projection, face block, sign, or ignored scaling option "
     "keeps the computation convergent or only degrades its conditioning",
     [HD + "scalar_stabilization.hpp", HD + "vector_stabilization.hpp"],
     [("make_scalar_hho_stabilization family", HD + "scalar_stabilization.hpp"),
      ("make_vector_hho_stabilization family", HD + "vector_stabilization.hpp")],
     claim=(AI, "other", AINOTE + " Concrete rational cells with distinct symbolic-free lengths for every face; inertia by exact LDL^T; "
            "degree combinations up to order 3."))

prop("H07", "HHO curl operators are the documented ones and commute with interpolation",
     "The curl reconstructions (energy projection in two and three dimensions, projection of the curl on full and Nedelec-type face spaces) solve their "
     "defining equations with the matching energy matrix and reproduce the curl of polynomials; the stabilisations (HDG, HHO, admittance-weighted) are the "
     "sums over the faces of the documented tangential jumps; mass, curl-curl, impedance and plane-wave terms are the integrals they stand for on the "
     "faces of the requested boundary; the projections on cells and tangential faces are the L2 ones; vector condensation and decondensation solve the full system.",
     ["inputs"], "for all cells, degrees and fields", "the tests never call the operators for the curl",
     ["methods/implementation_hho/curl.hpp", "methods/implementation_hho/methods_hho.hpp", "bases/bases_vector.hpp"],
     [("curl_reconstruction", "methods/implementation_hho/curl.hpp"), ("curl_hdg_stabilization", "methods/implementation_hho/curl.hpp")],
     claim=(AI, "other", AINOTE + " A triangle, a pentagon and a tetrahedron with rational face frames; degrees 0-1 quick, 0-3 thorough. Singular systems of the energy reconstruction are solved up to their kernel; the divergence-constrained variant is not claimed."))
prop("H08", "Scalar HHO on the new basis interface: operator, stabilisations, reduction",
     "In the namespace hho::slapl, for every cell and degrees: the space dimensions are those of the polynomial spaces and the default degrees are equal "
     "order; local_operator() solves the defining equation of the gradient reconstruction, returns its energy and reproduces polynomials of degree "
     "face degree + 1; local_stabilization() (scaled by the inverse cell diameter) and local_stabilization_hdg() (unscaled) are the documented quadratic "
     "forms of the face residuals, vanish on interpolated polynomials and with the energy vanish only on constants; local_reduction() is the L2 projection "
     "on cell and faces; no integral is requested below the degree of its integrand.",
     ["inputs"], "for all cells and degrees", "the tests do not call these functions; single meshes cannot show that the identities hold for every unknown",
     ["methods/hho_slapl.hpp", "bases/bases_operations.hpp", "bases/bases_new.hpp"],
     [("local_operator", "methods/hho_slapl.hpp"), ("local_stabilization", "methods/hho_slapl.hpp"), ("local_reduction", "methods/hho_slapl.hpp")],
     claim=(AI, "other", AINOTE + " A triangle, a pentagon and a tetrahedron with rational normals; cell and face degrees 0-2 quick, 0-3 thorough."))
prop("A01", "Discrete geometric operators are geometric and exact on uniform fields",
     "On every tetrahedron, in both orientations: primal and dual edge and area vectors, normals of the cell and of its faces, circulations and fluxes of a "
     "uniform field, signed and unsigned volume, incidence matrices of gradient and curl and the numbers of the edges are the geometric ones, consistent with "
     "the order in which the mesh lists edges and faces; edge and face mass matrices are symmetric and map the circulations (fluxes) of a uniform field to "
     "its dual fluxes (circulations), for scalar and symmetric tensor parameters.",
     ["inputs"], "for all tetrahedra and all uniform fields and parameters",
     "the unit test compares the matrices with stored ones on one tetrahedron; a sign wrong for the other orientation or another edge passes",
     ["methods/implementation_dga/methods_dga.hpp"],
     [("edge_matrix, face_matrix", "methods/implementation_dga/methods_dga.hpp")],
     claim=(AI, "other", AINOTE + " The tetrahedron is symbolic: every affine image of the unit one, vertices listed right- and left-handed."))
prop("F01", "The conforming P1 element is nodal and its matrices are exact",
     "On every triangle, however its vertices are listed, the P1 functions are one at their vertex, zero at the others and affine; their gradients are the "
     "derivatives; mass and stiffness matrices (identity and general tensor) are the exact integrals and the load is the value at the barycentre shared equally.",
     ["inputs"], "for all triangles, tensors and affine loads",
     "no unit test calls the conforming element",
     ["cfem/cfem.hpp"], [("eval_basis, mass_matrix, stiffness_matrix, make_rhs", "cfem/cfem.hpp")],
     claim=(AI, "other", AINOTE + " The triangle is symbolic, in both orientations."))
prop("D01", "Discontinuous Galerkin assembly is the sum of the local blocks",
     "Assembling a block for a pair of cells adds it at the rows of the first and the columns of the second; a cell contribution adds its block and load at "
     "the cell; repeated contributions accumulate; stiffness and mass of the eigenvalue problem do not mix; a second assembly starts from an empty matrix.",
     ["histories", "inputs"], "for all local matrices and loads", "no unit test assembles a discontinuous Galerkin system",
     ["methods/implementation_dg/assembler.hpp"],
     [("discontinuous_galerkin_assembler", "methods/implementation_dg/assembler.hpp")],
     claim=(AI, "other", AINOTE + " Symbolic local blocks on a mesh of four triangles, several sequences of contributions and block sizes."))
prop("V01", "2D virtual element matrices, projectors and numbering are consistent",
     "On every cell the sides are visited as one closed loop; the unknowns are numbered one-to-one, shared along sides, and the boundary ones are exactly those "
     "of boundary faces. B, D and G are the matrices of their definitions with B D = G, so that the energy projector leaves polynomials of the degree "
     "unchanged; the L2 projector reproduces polynomials of one degree less and has the right moments; the local stiffness is symmetric, exact on polynomials "
     "and vanishes on constants only; loads are exact; condensation and decondensation solve the full system.",
     ["inputs"], "for all cells, degrees and polynomial loads",
     "no unit test calls the virtual element method; an inconsistency shows only on cells without symmetry",
     ["methods/implementation_vem/methods_vem_2d.hpp"],
     [("matrix_G, matrix_B, matrix_D", "methods/implementation_vem/methods_vem_2d.hpp"), ("dof_mapper", "methods/implementation_vem/methods_vem_2d.hpp")],
     claim=(AI, "other", AINOTE + " Concrete cells (triangle listed both ways, rectangle, pentagon), degrees 1-3 quick, 1-4 thorough; the tabulated nodes make "
            "the comparison numerical (1e-9). The L2 projector is claimed on polynomials of one degree less, not beyond."))
prop("H03", "Masses, loads and projections are exact; quadrature requests suffice",
     "Mass and stiffness matrices, right-hand sides, L2 projections and hybrid interpolations (old and new basis interfaces, cells and "
     "faces, uniform or mixed degrees, extra quadrature degree) equal the exact integrals for polynomial data of the degree they "
     "cover; and no HHO operator ever asks integrate() for less than the degree of what it accumulates.",
     ["inputs"], "for all cells and faces, degrees and polynomial data",
     "under-integration by one degree only perturbs results at some degree combinations and on some elements; convergence tests with "
     "tolerances on the rate accept it",
     ["bases/bases_utils.hpp", HD + "methods_hho.hpp", "bases/bases_new.hpp", HD + "scalar_hho_laplacian.hpp", HD + "scalar_stabilization.hpp"],
     [("make_mass_matrix, make_rhs, project_function", "bases/bases_utils.hpp"), ("integrate/L2_projector", "bases/bases_new.hpp")],
     claim=(AI, "other", AINOTE + " Quadrature-degree analysis: each integrate() call is summarised by one generic node and the exact degree of "
            "the integrands accumulated with it is compared with the requested one; degrees up to 3."))

prop("H01", "Static condensation is the exact elimination of the cell unknowns",
     "Condensing a local system returns the Schur complement and its right-hand side, the operators kept for later are those of the "
     "elimination, and decondensation returns cell unknowns satisfying the cell equations of the uncondensed system, whether the "
     "right-hand side covers the cell or all unknowns; right-hand sides of any other size are refused.",
     ["inputs"], "for all local systems with a regular cell block, all sizes, degrees and face unknown patterns",
     "tests condense symmetric systems with no face load; a transposed block, a dropped face load or a swapped size only shows on "
     "unsymmetric operators or Neumann/contact loads",
     [HD + "scalar_hho_condensation.hpp", HD + "vector_hho_condensation.hpp", "methods/hho_assemblers.hpp",
      "methods/implementation_vem/methods_vem_2d.hpp"],
     [("static_condensation_impl, static_decondensation_impl", HD + "scalar_hho_condensation.hpp"), ("schur, deschur", "methods/hho_assemblers.hpp")],
     claim=(AI, "other", AINOTE + " Local systems are fully symbolic up to 3+3 unknowns, symbolic except for the cell block above."))

prop("H04", "Polynomial degree bookkeeping is consistent",
     "A degree object holds exactly the degrees it was given, or the documented equal-order fallback for invalid combinations; setters "
     "change the addressed cell or face only; per-cell views list faces in the order of faces(); and the counts, offsets and "
     "vector expansions derived from them match the dimensions of the polynomial spaces, faces without unknowns counting zero.",
     ["inputs", "histories"], "for all degree combinations, elements and sequences of settings",
     "mixed degrees and faces without unknowns are hardly used by the tests; two of these functions did not even compile",
     ["adaptivity/adaptivity.hpp", HD + "utils_hho.hpp"],
     [("hho_degree_info constructors, dof counts", HD + "utils_hho.hpp"), ("CellDegreeInfo, MeshDegreeInfo", "adaptivity/adaptivity.hpp")],
     claim=(AI, "other", AINOTE + " Degrees are enumerated up to 4 (thorough 6); a four-triangle mesh and single cells."))

prop("H02", "Assembly builds the system the boundary conditions define",
     "For every library assembler (diffusion, primal scalar, mechanics, primal vector, nonlinear, Stokes, condensed) and every "
     "combination of full, clamped or partial Dirichlet, Neumann, Robin and face-contact conditions and of uniform or mixed face "
     "degrees: the numbering of the free unknowns is one-to-one, matrix and right-hand side are the sums of the local "
     "contributions with imposed values eliminated and loads added, reading a solution back inserts the imposed values, and "
     "contradictory conditions on one face are refused.",
     ["inputs"], "for all local systems, boundary data, solutions and condition types",
     "tests use one Dirichlet condition on the whole boundary; a swapped row, a wrong sign of an eliminated value, or a load put on the "
     "wrong component only shows with partial or mixed conditions",
     ["methods/implementation_hho/assembler_hho.hpp", "methods/hho_assemblers.hpp"],
     [("assembler classes", "methods/implementation_hho/assembler_hho.hpp"), ("basic_condensed_assembler", "methods/hho_assemblers.hpp")],
     claim=(AI, "other", AINOTE + " Whole assemblies on a four-triangle and a two-tetrahedron mesh with symbolic local systems; face degrees 0 and 1."))

prop("C01", "Boundary conditions read back as declared and do not interfere",
     "For every face, by index and by face, the presence, type, boundary id and function of each kind of condition (Dirichlet, "
     "Neumann, Robin, contact) are those of the last declaration of that kind for the face's boundary id, whatever is declared for "
     "the other kinds; functions are scaled by the common factor; counters count faces once; per-cell queries agree with the per-face "
     "ones; the number of imposed unknowns follows the type; asking for the function of an absent condition is refused.",
     ["inputs", "histories"], "for all sequences of declarations and numberings of the boundary",
     "the tests declare one condition; a getter of another kind, a counter counting twice or an accessor by face that differs "
     "from the one by index is not exercised",
     ["boundary_conditions/boundary_conditions.hpp"],
     [("BoundaryConditions", "boundary_conditions/boundary_conditions.hpp")],
     claim=(AI, "other", AINOTE + " Sequences of declarations of each kind on two small meshes with three numberings of the boundary ids."))

MB = "mechanics/behaviors/"
prop("K01", "Tensor algebra and mechanical conversions are the formulas of tensor calculus",
     "Products, contractions, transposes, deviators, norms and derivatives of determinants on matrices and fourth-order tensors, the "
     "conversions between gradient, strain and stress measures, and the conversions of matrices and tensors to vectors, are the "
     "index formulas they are named after for all arguments; a conversion followed by its inverse is the identity.",
     ["inputs"], "for all matrices, tensors and invertible deformations, in two and three dimensions",
     "no test calls these functions; symmetric sample arguments hide swapped indices",
     [MB + "maths_tensor.hpp", MB + "maths_utils.hpp", MB + "maths_jacobian_derivate.hpp", MB + "tensor_conversion.hpp",
      "mechanics/deformation_tensors.hpp", "mechanics/stress_tensors.hpp"],
     [("tensor products", MB + "maths_tensor.hpp"), ("strain measures", "mechanics/deformation_tensors.hpp"), ("stress conversions", "mechanics/stress_tensors.hpp")],
     claim=(AI, "other", AINOTE + " All arguments are fully symbolic."))

prop("K02", "A behaviour on a mesh delegates to the law it was built for, point by point",
     "For every admissible pair of deformation measure and law, a Behavior has the quadrature points of integrate(), hands each "
     "point the material data that were added, returns the stress, tangent and internal variables of that law at that point, and a "
     "step at one point (computed or accepted) leaves every other point as it was; inadmissible pairs are refused.",
     ["inputs", "histories"], "for all admissible laws, points of the mesh and sequences of computations and updates",
     "the dispatch has one switch per operation and law; the tests run none of them, and a case calling its neighbour or losing the state of "
     "a point compiles",
     [MB + "laws/behaviorlaws.hpp", MB + "laws/law_bones.hpp", MB + "laws/law_qp_bones.hpp", MB + "laws/materialData.hpp"],
     [("Behavior", MB + "laws/behaviorlaws.hpp"), ("LawTypeBones, LawCellBones", MB + "laws/law_bones.hpp")],
     claim=(AI, "other", AINOTE + " Concrete strains, steps and material data; logarithms replaced by a rational stand-in, since only the delegation is judged."))

prop("K03", "Constitutive laws satisfy their equations and tangents are their derivatives",
     "Hyperelastic laws return the stress that derives from their energy; elastoplastic laws return Hooke's stress of the elastic strain, "
     "stay on or inside the yield surface, flow along its normal and keep additivity over any history of computed and accepted steps; the "
     "tangent returned is the derivative of the stress; material parameters are converted consistently.",
     ["inputs", "histories"], "for all strains, deformations, material parameters and loading histories",
     "no test evaluates a law; a wrong tangent only slows Newton's convergence and a wrong return mapping still yields plausible stresses",
     [MB + "laws/%s/" % f for f in ("LinearElasticityLaw", "LinearLaw", "LinearIsotropicAndKinematicHardening", "IsotropicHardeningVMis",
                                   "HenckyMises", "Neohookean", "Cavitation")] + [MB + "laws/materialData.hpp"],
     [("quadrature point laws", MB + "laws/law_qp_bones.hpp")],
     claim=(AI, "other", AINOTE + " First steps fully symbolic; later steps of plastic laws with fixed rational parameters. The tangent of HenckyMises is documented as the elastic one and is only checked to be that."))

prop("K04", "Time steps partition the simulation interval, robustly to rounding",
     "For any list of times, numbers of sub-steps, saving times, final time and sequence of splittings, the steps remaining and realised "
     "cover the interval exactly once in order: each starts where the previous ended, the user's times are hit exactly, none is lost "
     "or doubled by floating point rounding, and splitting a step refines only it.",
     ["inputs", "histories"], "for all time lists, final times and histories of splits and advances, under all rounding errors",
     "whether the last step survives depends on the last bits of sums of steps; sampled times are usually benign",
     ["mechanics/NewtonSolver/TimeManager.hpp"],
     [("ListOfTimeStep", "mechanics/NewtonSolver/TimeManager.hpp")],
     claim=("static analysis: abstract interpretation with symbolic rounding errors (taint on comparisons)", "other",
            AINOTE + " Each inexact operation carries an error symbol; a branch whose outcome depends on one is a violation. Times and numbers of steps are enumerated."))

prop("K05", "Logarithmic strain projectors are the derivatives of the logarithmic strain",
     "The projectors and second-order terms of the logarithmic strain are its first and second derivatives with respect to the "
     "deformation for distinct, pairwise equal and all equal eigenvalues, continuously, and the stress and tangent of a law used with "
     "them are the first Piola-Kirchhoff stress and its derivative.",
     ["inputs"], "for all stresses and deformations and every pattern of equal eigenvalues",
     "the branches for equal eigenvalues are measure-zero sets that generic loads never reach, and no test runs any",
     [MB + "logarithmic_strain/LogarithmicStrain_qp.hpp", MB + "logarithmic_strain/logarithmic_tools.hpp"],
     [("compute_projector", MB + "logarithmic_strain/logarithmic_tools.hpp"), ("LogarithmicStrain_qp", MB + "logarithmic_strain/LogarithmicStrain_qp.hpp")],
     claim=(AI, "other", AINOTE + " Stresses symbolic, eigenvalues and rotations from lists covering every pattern of equality; Eigen's eigen decomposition is assumed correct and sorted."))

prop("K06", "Element forces, rigidity and inertia follow from stress and tangent",
     "The internal force of a cell is the work of the stress in the reconstructed test strains, the rigidity that of the tangent, the "
     "residual the load minus the internal force; dynamics adds Newmark's inertia terms to all three; the adaptive stabilisation "
     "coefficient is the bounded mean ratio of stress and strain, per cell, in force only after an update.",
     ["inputs", "histories"], "for all cells, degrees, small and finite deformation laws, reconstructions, displacements and time steps",
     "no test runs the nonlinear element; a wrong entry only slows Newton or shifts the converged solution",
     ["mechanics/NewtonSolver/NewtonSolverComput.hpp", "mechanics/NewtonSolver/StabilizationManager.hpp"],
     [("mechanical_computation::compute", "mechanics/NewtonSolver/NewtonSolverComput.hpp"), ("StabCoeffManager", "mechanics/NewtonSolver/StabilizationManager.hpp")],
     claim=(AI, "other", AINOTE + " Reconstruction, displacement and strains are arbitrary fixed rationals, density, Newmark parameter, times and predictor symbolic; without contact."))

prop("M01", "Mesh queries answer what the stored topology says",
     "On every mesh, numbering (lookup, offset), the faces of a cell, boundary flags and ids, iteration over all, boundary and internal "
     "faces, counts, neighbours, internal interfaces and bounding box agree with the stored connectivity and with each other; elements "
     "order consistently; an element that is not in the mesh is refused.",
     ["inputs"], "for all topologies and all assignments of boundary ids, through every way of asking",
     "assemblers and applications use a few of these queries on meshes where they agree by luck; an element that is absent, a face "
     "between sub-domains or polygons with different numbers of sides are never asked for",
     ["mesh/mesh.hpp", "mesh/mesh_storage.hpp", "mesh/ident.hpp", "geometry/element_generic.hpp", "geometry/element_simplicial.hpp",
      "geometry/element_hexahedral.hpp", "geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp"],
     [("mesh", "mesh/mesh.hpp"), ("generic_element", "geometry/element_generic.hpp")],
     claim=(AI, "other", AINOTE + " Topologies and boundary ids are enumerated: 13 meshes of the seven families, 3 or 4 assignments of ids each."))

prop("M02", "Mesh generators and refinements produce conforming partitions",
     "Meshes made by the generators, by refinement and by the mesh hierarchy have complete tables, every face stored once and shared by at most "
     "two cells, the boundary flag on exactly the faces with one, the right side numbers, and cells filling the domain; refining splits each cell, "
     "wherever its vertices are, into children of the prescribed size that inherit boundary and subdomain numbers; points are located in their cell.",
     ["inputs"], "for all generators and refinement levels, for all positions of the vertices of the mesh that is refined",
     "tests run a solver on a few generated meshes; a wrong side number, a lost subdomain or a wrong child leaves most of these results unchanged, "
     "and refining a mesh that was moved is never tried",
     ["mesh/meshgen.hpp", "mesh/meshgen_fvca5hex.hpp", "mesh/mesh_hierarchy.hpp"],
     [("simple_mesher", "mesh/meshgen.hpp"), ("mesh_hierarchy", "mesh/mesh_hierarchy.hpp")],
     claim=(AI, "other", AINOTE + " Levels are enumerated (0-3); one and two refinement steps are analysed with symbolic vertices."))

prop("L01", "Mesh loaders deliver the mesh the file describes, or report failure",
     "For every supported format, loading a mesh file gives a mesh whose points, faces, cells, boundary numbers and subdomains are those the file "
     "lists, whatever their order, every entity stored once and sorted; a file that cannot be opened or ends inside a block is reported as "
     "not loaded; the threads used for loading do not touch each other's data and are joined.",
     ["inputs", "schedules"], "for all coordinates, all numberings of the entities in the file, every point at which the file may end",
     "tests load no files of most formats; the tables of the loaders are exercised only through results that do not depend on the boundary "
     "numbers or the order of entities, and never with a damaged file",
     ["loaders/loader.hpp", "loaders/loader_netgen.hpp", "loaders/loader_cartesian.hpp", "loaders/loader_fvca5.hpp", "loaders/loader_fvca6.hpp",
      "loaders/loader_medit.hpp", "loaders/loader_poly.hpp", "loaders/loader_uniform.hpp", "loaders/loader_utils.hpp", "loaders/strtot.hpp"],
     [("load_mesh", "loaders/loader.hpp"), ("netgen_mesh_loader", "loaders/loader_netgen.hpp"), ("fvca5_mesh_loader", "loaders/loader_fvca5.hpp")],
     claim=(AI, "other", AINOTE + " The files are enumerated (two or three numberings of a small mesh per format, with symbolic coordinates); "
            "truncation is analysed for the stream-based formats; gmsh needs an absent library."))

prop("E02", "Headers can be included in every translation unit of a program",
     "No header of the library defines a function or variable that the language allows only once per program: each definition found in a header is "
     "a template, a class member defined in its class, inline, constexpr, or of internal linkage.",
     ["inputs"], "for all programs made of several translation units",
     "every test program consists of a single translation unit, so a duplicate definition never shows",
     ["loaders/loader.hpp", "loaders/loader_poly.hpp", "bases/bases_new.hpp", "mesh/meshgen_fvca5hex.hpp", "solvers/solver.hpp", "quadratures/bits/quad_raw_gauss_lobatto.hpp"],
     [("degs", "bases/bases_new.hpp"), ("check_filename_extension", "loaders/loader.hpp")],
     claim=("static analysis: linkage query over the syntax trees of all headers", "other",
            "All headers are parsed by clang; the ones for libraries that are not installed as far as the parser recovers."))


prop("N01", "Discretisation errors decrease at the optimal rate under mesh refinement",
     "For a smooth solution the energy and L2 errors of the HHO, dG, VEM and conforming methods decrease with the mesh size at the optimal order of the degree.",
     ["inputs"], "for all smooth solutions and regular sequences of meshes",
     "a test measures a rate on a few meshes and one solution",
     ["methods/hho"], [("make_scalar_hho_laplacian", "methods/implementation_hho/scalar_diffusion.hpp")],
     na="asymptotic statement over sequences of meshes and run-time floating-point quantities; its algebraic ingredients (consistency, commutation, "
        "form and kernel of the stabilisation, exact quadrature) are decided by H03-H07, Q01-Q03, the rate itself needs approximation theory")

prop("N02", "Nonlinear solvers converge to a solution or report failure",
     "The Newton iterations of the mechanics solver stop at a state whose residual is below the tolerance, or report that they did not converge.",
     ["inputs", "histories"], "for all loads and materials", "tests run a few loads on a few meshes",
     ["mechanics"], [("NewtonSolverInfo", "mechanics/NewtonSolver/NewtonSolverInformations.hpp")],
     na="whether the residual drops below the tolerance depends on run-time quantities that no static argument in reach can bound; the consistency of "
        "stresses and tangents it rests on is K01-K05")

prop("N03", "Sparse linear and eigenvalue solvers return solutions of their systems",
     "The solver wrappers return a vector that satisfies the system up to the tolerance of the back end.",
     ["inputs"], "for all nonsingular systems", "tests use a few well-conditioned systems",
     ["solvers"], [("solver", "solvers/solver.hpp")],
     na="the factorisations are third-party libraries (Eigen sparse, MUMPS, Pardiso, FEAST; most not installed) whose floating-point behaviour is outside of reach")

prop("N04", "Output files describe the mesh and the fields that were handed over",
     "The Silo, Gmsh and HDF5 writers store the given mesh and variables.",
     ["inputs"], "for all meshes and fields", "no test reads an output file back",
     ["output"], [("silo_database", "output/silo.hpp")],
     na="the writers are sequences of calls into libraries that are not installed here; without their headers the calls cannot be resolved")
