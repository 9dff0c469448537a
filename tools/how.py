HOW = {
"P01": "bit-vector arithmetic on the real `rational<int>`; oracle: cross-multiplied 64-bit integer identities, canonical form (gcd 1, positive denominator) checked for every operator result.",
"P02": "exact real arithmetic on `point<T,D>` operators; oracle: vector space axioms and metric laws coordinate by coordinate.",
"P06": "measure/barycenter of planar elements against the shoelace formulas and centroid integrals, on every mesh class.",
"P07": "normals: unit length, orthogonality to every edge of the face, sign of (face - cell barycenter).n; the sum of measure*normal over the faces vanishes (closedness).",
"P08": "volumes/areas/barycenters against the divergence theorem applied to the face loops and determinant formulas.",
"P09": "areas/volumes of sub-simplices are positive, add up, their centroid combination is that of the cell; each vertex used belongs to the cell; ear clipping of nonconvex polygons.",
"P10": "containment against half-plane tests, bounding boxes against extrema, diameters against all pair distances, convexity against cross products, axes orthonormal and of the right span.",
"P11": "rules applied to polynomials with symbolic coefficients; oracle: closed-form integrals; nodes within the segment, positive weights adding up to the length.",
"P12": "rules applied to polynomials with symbolic coefficients; oracle: Stroud/Dirichlet closed form of monomial integrals mapped symbolically.",
"P13": "rules applied to polynomials with symbolic coefficients on quads with symbolic vertices; oracle: exact moments by the divergence theorem.",
"P14": "as P12 on tetrahedra and parallelepipeds (arbq, Grundmann-Moeller).",
"P15": "as P13 on polygons/polyhedra: moments by the divergence theorem on the cell's own faces.",
"P16": "symbolic evaluation point: basis functions are polynomials in the point; gradients compared with the formal derivative; projection of symbolic polynomials is the polynomial; Gram matrices against exact integrals.",
"P17": "symbolic point against the three-term recurrence; orthonormality by exact integrals of the polynomials.",
"P18": "symbolic point: formal Laplacian of every function vanishes; formal derivatives equal the gradients.",
"P19": "symbolic point: formal derivatives of vector functions against gradients, symmetric gradients, curls, divergences; projections of symbolic fields; RT membership.",
"P21": "symbolic unknowns: defining variational problem tested against every polynomial; symbolic polynomial of degree k+1 reproduced.",
"P22": "symbolic unknowns: bilinear form equals the independent jump form; vanishes on interpolates; symmetric, positive semidefinite, kernel dimension (exact rank of the concrete matrix).",
"P23": "symbolic unknowns: weak divergence definition against every test polynomial.",
"P24": "symbolic unknowns: weak gradient definition against every test function; energies; exactness on symbolic polynomial fields; interfaces agree.",
"P25": "symbolic couplings, right-hand sides and face solutions: block elimination residuals vanish.",
"P27": "operation sequences enumerated as paths, ids, functions and factors symbolic; oracle: a small list model of 'last condition wins'.",
"P26": "symbolic solution vectors, right-hand sides, current solutions and boundary data against a dense oracle that sums the local residuals through the map of the unknowns; the map itself is read back from the interface with distinct marker values.",
"P04": "the structure is recomputed from the point lists of the cells alone and compared with every query the mesh interface offers; element queries have symbolic point ids, single-element meshes symbolic sizes and positions.",
"P05": "two copies of the mesh are refined, one with every point displaced by a symbolic amount; parents of points, faces and cells are found from the lists of points, and positions, measures and boundary ids are compared; hexagonal meshes are queried at a symbolic point.",
"P03": "identifier values, point ids, list entries and queries are symbolic integers; the oracle compares them directly.",
"P20": "symbolic polynomials, points, segments, material tensors: formal derivatives, reproduction of polynomials, residual orthogonality, and term by term comparison of the integral operators with plain quadrature sums.",
"P28": "a symbolic vector of unknowns is put through the operators and the defining integrals are formed by quadrature against every test function; interpolates of symbolic polynomial fields; condensation against the residual of the full system.",
"P40": "meshes with displaced points are refined, every new point, edge and triangle is traced to its parents by its numbers and the values compared; symbolic points are located and the triangle found is judged by its barycentric coordinates.",
"P38": "the file is written by the harness with tokens for its numbers, the native number parsers return the symbolic values of the tokens, and the mesh is compared with the content of the file and checked for consistency.",
"P34": "every entry of the matrices and tensors is symbolic; results are compared entry by entry with the index formulas of the definitions, round trips with their argument, and strain and stress measures with matrix identities checked after multiplying out the inverses.",
"P35": "stresses and tangents of a symbolic deformation are compared with derivatives of the energy and of the stress (formed by the chain rule of the stated model), plastic steps with the conditions of the return mapping (yield, flow, hardening, irreversibility) from a history of earlier steps, the tangent with the derivative of the return mapping; Behavior is compared with a single point of the same law.",
"P36": "complete sets of directions in which the derivatives of the logarithmic strain are known in closed form (rotations before and after the deformation, stretches along the principal axes and inside equal ones) are put into the projectors with a symbolic stress, symbolic stretches, axes or rotation; the laws are compared with the law inside through the same identities.",
"P29": "a symbolic vector of unknowns is put through the operators and the defining integrals are formed by quadrature against every test function; interpolates of symbolic polynomials; local matrices of the assembler and of the condensation are symbolic and the sums and residuals are formed directly.",
"P32": "a triangle with symbolic vertices; the mass matrix, affine reproduction and one point rule are compared with closed forms, the stiffness matrix with rotated edges.",
"P33": "symbolic local matrices are assembled on all cells and pairs of neighbours and compared with the dense sum.",
"P30": "a tetrahedron with a symbolic vertex: vectors compared with cross products and barycentres, Stokes' theorem on symbolic linear fields, mass matrices with a symbolic material applied to constant fields.",
"P31": "symbolic unknowns and polynomials: defining equations of the projections formed by quadrature on the cell and on the edges; numbers of unknowns compared with the vertices and edges of the mesh.",
"P37": "stage lengths and times are symbolic and every sequence of advancing and splitting is compared with the list of intervals a user expects, also with symbolic relative rounding errors in each operation; one Newton iteration from a symbolic state is compared with an independently formed residual and with the equilibrium it must reach; parameter files are written with symbolic values.",
"P39": "the iterate after n steps is put into the system; the solver runs on a scalar type that refuses zero divisors, and the residual is recomputed where it stops.",
}
