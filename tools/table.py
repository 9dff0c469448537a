Q = "quadratures/"
prop("P01", "Exact rational arithmetic is correct and canonical",
 "Sums, differences, products, quotients, negation, inverse, absolute value, simplification and comparisons of rational numbers give the mathematically exact result, and the denominator of every result stays positive so that later comparisons stay right. gcd and lcm are the greatest common divisor and the least common multiple.",
 ["inputs", "programs"], "all numerators and denominators of either sign (no overflow), and short compound expressions",
 "unit_tests/rational.cpp evaluates a few fixed fractions; signs, zero operands and common factors combine in ways it does not sample.",
 ["mesh/rational.hpp"], [("rational", "diskpp/mesh/rational.hpp"), ("gcd/lcm", "diskpp/mesh/rational.hpp")])
prop("P02", "Points obey the vector-space and metric laws",
 "Point arithmetic (sum, difference, scaling, division, in-place forms) works coordinate by coordinate in one, two and three dimensions; building a point from coordinates (of any numeric type), lists or vectors and converting it back keeps every coordinate in its place; distance, midpoint and determinant are the Euclidean ones.",
 ["inputs"], "all points with real coordinates in dimensions 1 to 3 and all scale factors (nonzero for division)",
 "Only a handful of fixed points appear in the tests, indirectly.",
 ["mesh/point.hpp"], [("point", "diskpp/mesh/point.hpp")])
prop("P06", "Areas, lengths and barycenters of planar elements are exact",
 "The measure of every triangle, rectangle, convex or star-shaped polygon and segment equals its geometric area or length, whatever the orientation and position of the vertices, and the barycenter is its centre of mass, including for polygons with aligned (hanging) vertices.",
 ["inputs", "configurations"], "all positions and orientations of the vertices for which the cell is valid",
 "unit_tests use unit cells; orientation, scale, nonconvexity and hanging nodes are not varied.",
 ["geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp"], [("measure, barycenter", "diskpp/geometry/geometry_*.hpp")])
prop("P07", "Normals are unit, orthogonal to their face and point outward",
 "For every cell and each of its faces the normal has length one, is orthogonal to the face and points out of the cell, for both orders of the vertices, so that the normals weighted by face measures sum to zero over the boundary of every cell.",
 ["inputs", "configurations"], "all cells star-shaped about their barycenter, in one, two and three dimensions",
 "Tests only check unit meshes with a fixed vertex order.",
 ["geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp", "geometry/geometry.hpp"], [("normal", "diskpp/geometry")])
prop("P08", "Volumes, face areas and barycenters of 3D elements are exact",
 "The measure of every tetrahedron, box and polyhedron equals its volume, the measure of every planar polygonal face in space equals its area, and barycenters are the centres of mass, in any position and vertex orientation.",
 ["inputs", "configurations"], "all positions of the vertices for which the cell is valid (planar faces)",
 "Tests integrate over unit cubes and fixed meshes only.",
 ["geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp"], [("measure, barycenter", "diskpp/geometry")])
prop("P09", "Triangulations of cells partition them",
 "Splitting a polygon or polyhedron into simplices (fan, ear clipping or triangle mesher in 2D, tetrahedra in 3D) yields simplices whose vertices are vertices of the cell or its centre, which do not overlap and cover the cell: their moments add up to those of the cell, none is inverted.",
 ["inputs", "configurations"], "all convex and simple nonconvex polygons and star-shaped polyhedra",
 "Tests never look at the pieces and use regular cells.",
 ["geometry/geometry_generic.hpp", Q + "bits/quad_raw_tetra.hpp", "geometry/geometry_all.hpp"], [("triangulate_nonconvex_polygon, split_in_raw_tetrahedra, triangulate_*", "diskpp/geometry, diskpp/quadratures")])
prop("P10", "Diameters, bounding boxes, containment, convexity and axes are right",
 "The diameter of an element is the largest distance between two of its vertices; bounding boxes are the tightest boxes around the given points, coordinate by coordinate; a point is reported inside a cell exactly when it is in it, on either vertex order; a polygon is reported convex exactly when it is; average diameter is the mean of diameters, and the scaling and inertia axes of elements are an orthogonal frame.",
 ["inputs", "configurations"], "all element shapes and all query points (off the boundary)",
 "Tests do not call most of these, or on one regular mesh.",
 ["geometry/geometry.hpp", "geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp", "geometry/geometry_all.hpp"], [("diameter, diameter_boundingbox, bounding_box, is_inside, is_convex, average_diameter, inertia_axes, scaling", "diskpp/geometry")])
prop("P11", "Quadrature on segments is exact to its degree",
 "On every segment, in one, two or three dimensions and in either direction, Gauss-Legendre and Gauss-Lobatto rules of degree d (and every supported d) integrate all polynomials of degree at most d exactly, their weights add up to the length and their points lie on the segment; unsupported degrees are refused.",
 ["inputs", "configurations"], "all segments, all supported degrees, all polynomials of those degrees",
 "unit_tests/quadratures.cpp checks monomials on fixed segments for some rules.",
 [Q + "quadratures.hpp", Q + "bits/quad_raw_gauss.hpp", Q + "bits/quad_raw_gauss_lobatto.hpp", Q + "quad_bones.hpp"], [("gauss_legendre, gauss_lobatto, edge integrate", "diskpp/quadratures")])
prop("P12", "Triangle quadrature integrates polynomials exactly",
 "On every non-degenerate triangle, in the plane or as a face in space, the quadrature returned for degree d integrates every polynomial of total degree at most d exactly, with weights adding up to the area, also for the high degrees beyond the tables.",
 ["inputs", "configurations"], "all triangles, all polynomials of degree at most d, all supported d",
 "unit_tests/quadratures.cpp integrates a few monomials on fixed triangles.",
 [Q + "quadratures.hpp", Q + "bits/quad_raw_triangle.hpp", Q + "bits/triquad.hpp"], [("integrate on simplicial cells", "diskpp/quadratures/bits"), ("rule tables", "diskpp/quadratures/bits/quad_raw_triangle.hpp")])
prop("P13", "Quadrature on quadrilaterals, rectangles and boxes is exact",
 "On every rectangle, box, box face and convex quadrilateral (parallelogram or not, either vertex order) the quadrature of degree d integrates every polynomial of total degree at most d exactly and its weights add up to the measure; unsupported degrees are refused.",
 ["inputs", "configurations"], "all shapes, all polynomials of degree at most d",
 "The tests only use unit squares and affine quadrilaterals.",
 [Q + "quadratures.hpp", Q + "bits/quad_phys_cartesian.hpp", Q + "bits/quad_phys_generic.hpp"], [("tensorized_gauss_legendre, integrate", "diskpp/quadratures")])
prop("P14", "Quadrature on tetrahedra and parallelepipeds is exact",
 "On every tetrahedron the rules of degree d (Grundmann-Moeller and the tabulated ones) integrate every polynomial of total degree at most d exactly, with weights adding up to the volume; so do the tensor rules on parallelepipeds.",
 ["inputs", "configurations"], "all tetrahedra in either orientation, all polynomials of degree at most d, d up to 15",
 "unit_tests/quadratures.cpp integrates a few monomials on fixed tetrahedra.",
 [Q + "quadratures.hpp", Q + "bits/quad_phys_simplicial.hpp", Q + "bits/quad_raw_tetra.hpp", "libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp"], [("grundmann_moeller, tetrahedron rules", "diskpp/quadratures")])
prop("P15", "Quadrature on polygons and polyhedra is exact",
 "On every polygonal cell, convex or not, every polyhedral cell and every polygonal face in space, the quadrature of degree d integrates every polynomial of total degree at most d exactly and its weights add up to the measure.",
 ["inputs", "configurations"], "all polygons, star-shaped polyhedra and planar faces, all polynomials of degree at most d",
 "Tests use the regular cells of one mesh family.",
 [Q + "quadratures.hpp", Q + "bits/quad_phys_generic.hpp"], [("integrate on generic meshes", "diskpp/quadratures/bits/quad_phys_generic.hpp")])
prop("P16", "Scalar polynomial bases, gradients and projections are consistent",
 "The scaled monomial bases on cells and faces of any mesh have the dimension of the polynomial space and contain the constants, the gradients they return are the derivatives of the functions they return, and the L2 projection on them reproduces every polynomial of the degree of the basis and leaves an error orthogonal to the basis; mass and stiffness matrices are the integrals they stand for.",
 ["inputs", "configurations"], "all evaluation points, all polynomials, all cell and face kinds and degrees, with and without inertia axes",
 "Tests project a fixed function on fixed meshes and look at convergence rates only.",
 ["bases/bases_scalar.hpp", "bases/bases_utils.hpp"], [("scaled_monomial_scalar_basis", "diskpp/bases/bases_scalar.hpp"), ("project_function, make_mass_matrix", "diskpp/bases/bases_utils.hpp")])
prop("P17", "Legendre bases are Legendre polynomials with correct derivatives",
 "The Legendre bases evaluate to the (normalised) Legendre polynomials for every supported degree, their gradients are the derivatives of their values, they are orthonormal on boxes, rectangles and edges, projections on them reproduce polynomials, and unsupported degrees are refused.",
 ["inputs", "configurations"], "all evaluation points, degrees 0 to 10, cells and faces of every kind",
 "No test evaluates high-degree Legendre derivatives.",
 ["bases/bases_scalar.hpp"], [("legendre bases", "diskpp/bases")])
prop("P18", "Harmonic bases are harmonic and consistent",
 "Above the polynomial degree asked for, every function of the harmonic bases in two and three dimensions has zero Laplacian everywhere (including on the symmetry axis), the gradients returned are the derivatives of the functions returned, the functions are independent, and the dimensions reported are those of the full polynomial space plus two (2D) or 2n+1 (3D) harmonic functions per degree n.",
 ["inputs", "configurations"], "all evaluation points, all full degrees and polynomial degrees, cells of every kind",
 "unit_tests/harmonic.cpp checks that the fluxes sum to zero on three meshes with one degree, which cancels most errors.",
 ["bases/bases_scalar.hpp"], [("scaled_harmonic_top_scalar_basis", "diskpp/bases/bases_scalar.hpp")])
prop("P19", "Vector, matrix and Raviart-Thomas bases have consistent derivatives",
 "The vector, matrix, symmetric matrix, tangential, Nedelec-type and Raviart-Thomas bases on cells and faces have the dimension they report, and the gradients, symmetric gradients, curls and divergences they return are the derivatives of the functions they return; Raviart-Thomas spaces contain all vector polynomials of the lower degree plus x times the homogeneous ones, symmetric bases are symmetric, tangential face functions are orthogonal to the normal, and projections on these bases reproduce every field of the space.",
 ["inputs", "configurations"], "all evaluation points and fields, degrees up to 3, cells and faces of every kind",
 "Tests only reach these bases through converging examples on fixed meshes.",
 ["bases/bases_vector.hpp", "bases/bases_matrix.hpp", "bases/bases_utils.hpp"], [("vector, matrix, RT and tangential bases", "diskpp/bases/bases_vector.hpp, bases_matrix.hpp")])
prop("P21", "The HHO reconstruction solves its problem and is exact on polynomials",
 "On every cell the scalar HHO reconstruction operator of any vector of cell and face unknowns satisfies its defining variational problem (with or without diffusion tensor, with cell degree equal, one above or one below the face degree, and in its face-projected variant), the local matrix is the energy of the reconstructed gradient, and the reconstruction of the interpolate of a polynomial of degree k+1 is that polynomial up to a constant.",
 ["inputs", "configurations"], "all vectors of unknowns, all polynomials of degree k+1, all cell kinds and supported degrees",
 "Convergence tests only see rates for one solution on one mesh family.",
 ["methods/implementation_hho/scalar_hho_laplacian.hpp", "methods/implementation_hho/methods_hho.hpp"], [("make_scalar_hho_laplacian, make_shl_face_proj", "diskpp/methods/implementation_hho/scalar_hho_laplacian.hpp"), ("project_function to HHO unknowns", "methods_hho.hpp")])
prop("P22", "HHO stabilizations penalise exactly the right jumps",
 "The HDG, DG, HHO and tensor-weighted stabilizations are symmetric and positive semidefinite and equal the scaled squared face jumps they stand for, for every vector of unknowns; they vanish on interpolates of polynomials of degree k+1 (HHO) or of the cell degree (HDG), and together with the reconstruction they leave only constants in the kernel.",
 ["inputs", "configurations"], "all vectors of unknowns, all polynomials, cell kinds, degrees and length scales",
 "No test looks at the stabilization matrices.",
 ["methods/implementation_hho/scalar_stabilization.hpp", "methods/implementation_hho/vector_stabilization.hpp"], [("make_scalar_*_stabilization", "diskpp/methods/implementation_hho/scalar_stabilization.hpp")])
prop("P23", "The divergence reconstruction is the weak divergence",
 "For every vector of cell and face unknowns the HHO divergence reconstruction is the weak divergence of the unknowns tested against every polynomial of its degree, its right-hand side matrix is that weak form, and the divergence reconstructed from the interpolate of a polynomial field is the projection of its divergence.",
 ["inputs", "configurations"], "all vectors of unknowns, all polynomial fields, cell kinds and degrees",
 "No test calls this operator.",
 ["methods/implementation_hho/scalar_hho_divrec.hpp"], [("make_hho_divergence_reconstruction", "diskpp/methods/implementation_hho/scalar_hho_divrec.hpp")])
prop("P24", "Vector and matrix gradient reconstructions are the weak gradients",
 "For every vector of unknowns the gradient, matrix gradient, symmetric gradient and Raviart-Thomas gradient reconstructions, and the vector and symmetric Laplacian reconstructions, are the weak gradients tested against every function of their space, their local matrices are the corresponding (tensor weighted) energies, and they are exact on interpolates of polynomial fields of degree k+1, whichever interface (degree info, cell infos, mesh infos) is used.",
 ["inputs", "configurations"], "all vectors of unknowns, all polynomial fields of degree k+1, cell kinds and degrees",
 "No test calls these operators.",
 ["methods/implementation_hho/vector_hho_gradrec.hpp", "methods/implementation_hho/matrix_hho_gradrec.hpp", "methods/implementation_hho/vector_hho_laplacian.hpp", "methods/implementation_hho/utils_hho.hpp"], [("gradient reconstructions", "diskpp/methods/implementation_hho")])
prop("P25", "Static condensation is equivalent to the local system",
 "For every local system with an invertible cell block and every right-hand side, solving the statically condensed system for the face unknowns and recovering the cell unknowns gives the solution of the full local system, and conversely; systems of impossible size are refused. This holds for the scalar, the vector and the basis-generic versions.",
 ["inputs", "configurations"], "all right-hand sides and couplings, all numbers of cell and face unknowns",
 "Tests see condensation only through the final error of an example.",
 ["methods/implementation_hho/scalar_hho_condensation.hpp", "methods/implementation_hho/vector_hho_condensation.hpp", "methods/hho_assemblers.hpp"], [("make_*_static_condensation, make_*_static_decondensation, schur, deschur", "diskpp/methods/implementation_hho, diskpp/methods/hho_assemblers.hpp")])
prop("P27", "Boundary conditions are recorded and counted face by face",
 "After any sequence of boundary conditions, every face reports exactly the conditions given for its boundary id, with the type, id and function given last and the factor applied; the numbers of faces with a condition, the faces of a cell with or without contact, and the unknowns fixed by a condition are those of the conditions recorded; conditions that make no sense in the dimension are refused, and functions asked for where there is no condition are refused.",
 ["inputs", "histories", "configurations"], "all sequences of conditions, boundary ids, functions and factors",
 "No test covers boundary conditions beyond homogeneous Dirichlet everywhere.",
 ["boundary_conditions/boundary_conditions.hpp"], [("BoundaryConditions", "diskpp/boundary_conditions/boundary_conditions.hpp")])
prop("P26", "Assembled systems are the sum of the local systems",
 "Whatever the mesh, degree, boundary conditions and local contributions, the assembled global system applied to any vector of unknowns is the sum of the local systems applied to the local view of that vector, with the prescribed components of faces replaced by the projections of their boundary data (or increments with respect to the current solution), plus the Neumann and Robin terms; every unknown is numbered exactly once, both sides of a face share its unknowns; local and expanded solutions give back the unknowns and the prescribed data; and conflicting conditions on the same components are refused.",
 ["inputs", "configurations"], "all solution vectors, right-hand sides and affine boundary data, all assignments of condition types to boundary ids",
 "Tests assemble only homogeneous or scalar Dirichlet problems and look at the final error.",
 ["methods/implementation_hho/assembler_hho.hpp", "methods/hho_assemblers.hpp"], [("diffusion_condensed_assembler, stokes_assembler, stokes_assembler_alg, assembler_mechanics, scalar_primal_hho_assembler, vector_primal_hho_assembler, vector_mechanics_hho_assembler, basic_condensed_assembler", "diskpp/methods/implementation_hho/assembler_hho.hpp, diskpp/methods/hho_assemblers.hpp")])
prop("P04", "Meshes are consistent collections of cells and faces",
 "In every mesh the library builds, each face belongs to one or two cells and is a boundary face exactly in the first case; faces and cells are found at their position and their faces, points and numbers agree; the faces of a cell close up and enclose its measure; neighbours, boundary ids, counts and iterators over boundary and interior faces agree with that structure; transform moves the points and nothing else; elements are found if and only if they are in the mesh.",
 ["inputs", "configurations"], "all sizes and positions of single element meshes, all element queries, every kind of cell and mesher",
 "Tests use a few meshes and look only at sums over all cells.",
 ["mesh/mesh.hpp", "mesh/meshgen.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp", "geometry/geometry_generic.hpp", "geometry/element_generic.hpp"], [("mesh, faces, faces_id, neighbour_connectivity, make_single_element_mesh, boundary iterators", "diskpp/mesh/mesh.hpp, diskpp/mesh/meshgen.hpp, diskpp/geometry")])
prop("P05", "Meshers fill the unit domain and refinement splits every cell",
 "The simple meshers and the hexagonal mesher fill the unit square or cube with conforming cells whose boundary ids number the sides, at every level; refining splits every cell of any (deformed) mesh into equal parts at the middles of its edges, keeps the old points, passes boundary ids on to the parts of boundary faces and gives the same structure whatever the positions of the points; making a level again on the same mesh gives that level.",
 ["inputs", "configurations", "histories"], "all displacements of the points of the mesh to refine, all query points, all levels within the bound",
 "Tests use the meshers at fixed levels and check nothing about their structure.",
 ["mesh/meshgen.hpp", "mesh/meshgen_fvca5hex.hpp"], [("simple_mesher, fvca5_hex_mesher, make_hexmesh", "diskpp/mesh/meshgen.hpp, diskpp/mesh/meshgen_fvca5hex.hpp")])
prop("P03", "Identifiers and elements compare and are found by value",
 "Identifiers carry their value, compare as it and refuse to be used when invalid, in the general and in the 32 bit version; simplices are equal and ordered by their set of points, boxes by their tuple of points, edges regardless of direction; searching a sorted list finds an element if and only if it is there, at its position; sorting and removing repetitions keeps exactly the values; filtered iteration visits exactly the accepted elements in order.",
 ["inputs"], "all values of identifiers, all choices of points, all sorted lists and queries within the sizes",
 "Tests touch identifiers only through whole meshes.",
 ["mesh/ident.hpp", "mesh/mesh.hpp", "geometry/element_simplicial.hpp", "geometry/element_hexahedral.hpp", "geometry/element_generic.hpp", "loaders/loader_utils.hpp"], [("identifier, find_element_id, filter_iterator, element comparison, sort_uniq", "diskpp/mesh/ident.hpp, diskpp/mesh/mesh.hpp, diskpp/geometry/element_*.hpp, diskpp/loaders/loader_utils.hpp")])
prop("P20", "Scaled monomial bases and the operators on them are exact",
 "The scaled monomial bases on cells and faces (every rescaling strategy) contain all polynomials of their degree: projections of such polynomials give them back and the error of any projection is orthogonal to the basis; gradients are the derivatives of the functions, also after rescaling and on ranges of degrees; the integral operators on functions, gradients, normal fluxes and gradients weighted by a material tensor give the exact integrals, tests in rows and trials in columns.",
 ["inputs", "configurations"], "all polynomials of the degree, all points, all symmetric material tensors, all 1D segments and scale factors",
 "Tests interpolate one sine on one interval or square.",
 ["bases/bases_new.hpp", "bases/bases_operations.hpp"], [("scaled_monomial_basis, L2_projector, integrate, grad, dot, material products", "diskpp/bases/bases_new.hpp, diskpp/bases/bases_operations.hpp")])
prop("P38", "Mesh loaders give the mesh that is written in the file",
 "Reading a mesh file in any of the supported formats gives a consistent mesh whose points, cells, boundary edges or faces with their ids and subdomain ids are exactly those written in the file, whatever the numbering, orientation and order used in the file; files that cannot be opened are refused, and loading says whether it succeeded.",
 ["inputs", "configurations"], "all values of the coordinates within the variants of the files",
 "No test reads a mesh file and looks at its content.",
 ["loaders/loader.hpp", "loaders/loader_netgen.hpp", "loaders/loader_medit.hpp", "loaders/loader_poly.hpp", "loaders/loader_cartesian.hpp", "loaders/loader_fvca5.hpp", "loaders/loader_fvca6.hpp", "loaders/loader_uniform.hpp", "loaders/loader_utils.hpp"], [("netgen, medit, poly, cartesian, fvca5, fvca6 and uniform loaders, load_mesh_*, dispatch_all_meshes, mapped_file", "diskpp/loaders, src/common/mapped_file.cpp")])
prop("P34", "Tensor algebra and strain and stress measures are exact",
 "Products, contractions, transposes, identities and restrictions of second and fourth order tensors follow the index conventions of the library in 2D and 3D; vector (Mandel, MGIS) forms of matrices and tensors round trip and act alike; strain measures, stress measures, deviators, the von Mises stress, the tangent conversions and the derivatives of the determinant follow their definitions.",
 ["inputs"], "all matrices and tensors (nonsingular deformation gradients)",
 "No test evaluates these functions.",
 ["mechanics/behaviors/maths_tensor.hpp", "mechanics/behaviors/tensor_conversion.hpp", "mechanics/behaviors/maths_utils.hpp", "mechanics/behaviors/maths_jacobian_derivate.hpp", "mechanics/deformation_tensors.hpp", "mechanics/stress_tensors.hpp"], [("tm_prod, Kronecker, ContractedProduct, ProductSup/Inf, Odot, convertTensor*, convertMatrix*, convertFto*, convertPK*, Jacobian*Derivate", "diskpp/mechanics")])
prop("P35", "Material laws give the stress, tangent and state of their model",
 "Hyperelastic laws give the stress that derives from their energy and the tangent that derives from their stress, for every volumetric function, and refuse deformations that are not orientation preserving; linear laws are Hooke's law; plastic laws satisfy the yield condition, flow rule, hardening law and irreversibility, with a tangent that is the derivative of the stress, keep their history only at an update, and hardening curves are interpolated between their points. A material behavior on a mesh gives every cell the points of its quadrature and every point the law asked for, refuses laws of another deformation measure, and projects stresses and plastic state of cells in the L2 sense.",
 ["inputs", "histories"], "all strains and deformation gradients, and all load histories",
 "No test evaluates a material law.",
 ["mechanics/behaviors/laws/behaviorlaws.hpp", "mechanics/behaviors/laws/law_bones.hpp", "mechanics/behaviors/laws/law_cell_bones.hpp", "mechanics/behaviors/laws/law_qp_bones.hpp", "mechanics/behaviors/laws/materialData.hpp"],
 [("LinearElasticity_qp, LinearLaw_qp, HenckyMises_qp, Neohookean_qp, Cavitation_qp, LinearIsotropicAndKinematicHardening_qp, IsotropicHardeningVMis_qp; MaterialData; LawTypeBones, LawTypeCellBones, Behavior", "diskpp/mechanics/behaviors/laws")])
prop("P36", "Logarithmic strain laws derive from the strain they give the law inside",
 "The logarithmic strain of a deformation is half the logarithm of its right Cauchy-Green tensor; the projectors are its first and second derivatives with respect to the deformation gradient and to the Cauchy-Green tensor, for principal stretches that are distinct, equal, or equal up to rounding. The stress and tangent of a law in logarithmic strains are those of the law inside, carried over by these derivatives, and its history is that of the law inside; deformations that are not orientation preserving are refused.",
 ["inputs", "histories"], "all deformation gradients and stresses, including repeated principal stretches",
 "No test evaluates a law in logarithmic strains.",
 ["mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp", "mechanics/behaviors/logarithmic_strain/LogarithmicStrain_qp.hpp", "mechanics/behaviors/logarithmic_strain/LogarithmicStrain.hpp"],
 [("compute_eigenvalues, compute_Elog, compute_coefficient, compute_projector, compute_projector_PK2; LogarithmicStrain_qp", "diskpp/mechanics/behaviors/logarithmic_strain")])
prop("P29", "The simple HHO Laplacian reconstructs, stabilizes and condenses exactly",
 "The reconstruction on scaled bases solves its defining problem for every vector of cell and face unknowns and reproduces polynomials, its matrix is the energy of the reconstruction, the stabilizations are the scaled projected jumps, symmetric and positive semidefinite, and vanish on interpolates of polynomials; reductions are L2 projections. The condensed system and the recovered unknowns solve the local system, and assembly adds the condensed systems over the faces that are not Dirichlet faces.",
 ["inputs", "configurations"], "all vectors of unknowns, polynomials, local matrices and choices of Dirichlet faces",
 "No test calls these operators.",
 ["methods/hho_slapl.hpp", "methods/hho_assemblers.hpp"], [("local_operator, local_stabilization, local_stabilization_hdg, local_reduction, basic_condensed_assembler, schur, deschur", "diskpp/methods")])
prop("P32", "Conforming P1 elements on triangles are exact",
 "The three functions are one at their vertex and zero at the others, sum to one and reproduce affine functions; their gradients are their derivatives; the mass matrix and the stiffness matrix, with and without a material matrix, are the exact integrals, and the right-hand side that of the one point rule, whatever the position, size and orientation of the triangle.",
 ["inputs", "configurations"], "all triangles, points, material matrices and affine right-hand sides",
 "No test uses conforming elements.",
 ["cfem/cfem.hpp"], [("eval_basis, eval_basis_grad, mass_matrix, stiffness_matrix, make_rhs", "diskpp/cfem/cfem.hpp")])
prop("P33", "Discontinuous Galerkin assembly is the sum of the local contributions",
 "The systems assembled for discontinuous methods are the sums of the contributions of cells and of pairs of cells, each in the rows of its first and the columns of its second cell, also when several contributions go to the same place; the eigenvalue form keeps stiffness and mass apart.",
 ["inputs", "configurations"], "all local matrices and vectors, orders and repetitions of assembly",
 "No test assembles a discontinuous method.",
 ["methods/implementation_dg/assembler.hpp"], [("discontinuous_galerkin_assembler, discontinuous_galerkin_eigenvalue_assembler", "diskpp/methods/implementation_dg/assembler.hpp")])
prop("P28", "The curl operators of HHO are the curls of the discrete unknowns",
 "The reconstructed and discrete curls satisfy their defining equations for all unknowns, reproduce the curl of polynomial fields, and the stabilizations are the projected tangential jumps and vanish on polynomials. Interpolation projects cell and tangential traces, boundary and mass terms are the integrals of their definition on the faces with the given boundary id, and condensation keeps the solution.",
 ["inputs", "configurations"], "all vectors of unknowns, polynomial fields, impedances and local matrices",
 "The tests solve no curl problem.",
 ["methods/implementation_hho/curl.hpp"], [("curl_reconstruction*, curl_hdg_stabilization*, curl_hho_stabilization, curl_Z_stabilization, make_impedance_term, project_tangent*, static_condensation", "diskpp/methods/implementation_hho/curl.hpp")])

prop("P40", "A hierarchy of refined meshes nests, and points are found on every level",
 "Every level has four triangles for each triangle of the level before, cut at the middle of its edges, with the points, the boundary edges and ids and the subdomains it had; building again starts afresh. Locating a point gives a triangle of the requested level that contains it, and refuses points outside of the mesh and levels that do not exist.",
 ["inputs", "configurations"], "all positions of the points of the mesh and all query points",
 "No test builds a hierarchy of meshes.",
 ["mesh/mesh_hierarchy.hpp"], [("mesh_hierarchy: build_hierarchy, refine, make_coarse_to_fine_map, locate_point", "diskpp/mesh/mesh_hierarchy.hpp")])

prop("P30", "Discrete geometric operators on tetrahedra match the cell geometry",
 "Edge, face, dual edge and dual face vectors of a tetrahedron and of its faces are the geometric ones with consistent orientations; differences, circulations and fluxes satisfy Stokes' theorem; the edge and face mass matrices are symmetric, positive definite for positive materials, and give the exact dual fluxes and circulations of constant fields for every scalar or tensor material. Edges and their numbers are those of the mesh, and edges that are not in it are refused.",
 ["inputs", "configurations"], "all positions and orientations of the vertices, constant fields and materials",
 "No test calls these operators.",
 ["methods/implementation_dga/methods_dga.hpp"], [("primal/dual vectors, grad_matrix, curl_matrix, edge_matrix, face_matrix, integrate_on_*, normals, edges, edge_ids", "diskpp/methods/implementation_dga/methods_dga.hpp")])
prop("P31", "Virtual elements project polynomials exactly and number unknowns consistently",
 "On polygons the elliptic and L2 projections of virtual functions satisfy their defining equations for every vector of unknowns and give polynomials back; the local stiffness is symmetric, positive semidefinite with constants as kernel, and exact when one argument is a polynomial; loads are tested with the projection. Neighbouring cells share exactly the unknowns of their common vertices and edges, boundary unknowns are recognized, and condensation keeps the solution.",
 ["inputs", "configurations"], "all vectors of unknowns, polynomials, loads and local matrices",
 "No test computes a virtual element.",
 ["methods/implementation_vem/methods_vem_2d.hpp"], [("matrix_D, matrix_G, matrix_B, projector_nabla, projector_zero, compute_local, dof_mapper, schur, deschur", "diskpp/methods/implementation_vem/methods_vem_2d.hpp")])
prop("P37", "Newton iterations and time steps follow the equations of mechanics",
 "The stages of time steps given by the user are run through in order without gaps or overlaps up to the final time, whatever the splitting of steps that failed and whatever rounding does to the times; parameters have their documented defaults and a parameter file sets exactly what it names. A Newton iteration solves the linearized equilibrium of internal, external and Neumann forces, with every stabilization, operators computed in advance or not, static or with the Newmark scheme, whose velocities, accelerations, masses and predictions follow the scheme; the residual decides on convergence and an equilibrium stays one.",
 ["inputs", "histories", "configurations"], "all stage lengths and orders of advancing and splitting, affine loads, boundary data, displacements, velocities and accelerations",
 "No test runs the solvers of mechanics.",
 ["mechanics/NewtonSolver/NewtonIteration.hpp", "mechanics/NewtonSolver/NewtonStep.hpp", "mechanics/NewtonSolver/NewtonSolverComput.hpp", "mechanics/NewtonSolver/NewtonSolverParameters.hpp", "mechanics/NewtonSolver/TimeManager.hpp", "mechanics/NewtonSolver/StabilizationManager.hpp"],
 [("ListOfTimeStep, TimeStep, NewtonSolverParameter, NewtonIteration, NewtonStep, mechanical_computation, StabCoeffManager", "diskpp/mechanics/NewtonSolver")])
prop("P39", "The conjugated gradient solves the system it is given",
 "After as many iterations as there are unknowns the iterate is the solution, for every symmetric positive definite matrix, right-hand side and initial guess; it stops before its limit only when the residual has been reduced as the user asked, also when the initial guess is the solution, and never gives an iterate that is not a number. The tolerance and the number of iterations set by the user are the ones that are used.",
 ["inputs"], "all right-hand sides, initial guesses and tolerances within the bounds",
 "No test calls the iterative solvers.",
 ["solvers/solver.hpp"], [("conjugated_gradient, conjugated_gradient_params", "diskpp/solvers/solver.hpp")])
