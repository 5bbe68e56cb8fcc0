import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=mech))
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
p("C01","Refinement forest traversals always match the history of edits",
"After any history of adding roots, adding children (optionally at a deeper level), extending leaves to a level, removing children and clearing, every traversal of the mesh forest (single level, all levels, pre-order, post-order; forwards, backwards and counted) yields exactly the entries that history left, in the documented order. The number of levels, the number of roots, and every entry's reported level, depth, parent, children, sibling index and leaf status agree with that same history.",
["histories","inputs"],"all edit histories of the forest container and all traversal kinds and directions",
"The unit test drives one hand-written tree shape; order and counters must hold for every edit history, including stretched entries, erase-then-add and clear-then-reuse.",
["kernel/Base/LevelTree.h","kernel/Base/LevelTree_Impl.h","kernel/Base/TreeEntry.h","kernel/Base/TreeIterator.h"],
[dict(where="kernel/Base/LevelTree_Impl.h",name="addRootEntry/addChild/addChildren/fillToLevel/eraseChilds/clear maintain entries, depth and maximum level"),dict(where="kernel/Base/TreeIterator.h",name="traversal stepping rules")])
p("C02","Global degree-of-freedom numbering is one agreed bijection",
"For every mesh, partitioning, set of included unknowns and numbering layout, the global numbers of all basis functions form exactly the range 0..N-1 with no number used twice, every process assigns the same number to the same basis function (including those in its ghost layer), and each process's own numbers are the block(s) its layout promises. Translating a number to the owner's process-local number succeeds exactly for numbers the process owns and enumerates them in order.",
["schedules","configurations","inputs"],"all partitioned meshes, unknown subsets, the three layouts, and all message interleavings of the numbering exchange",
"The tests run everything on one process, so the exchange between processes is never executed; message timing and partition shape cannot be sampled by unit tests.",
["kernel/Utilities/GlobalIndexing.h","kernel/Utilities/GlobalIndexing.cpp"],
[dict(where="kernel/Utilities/GlobalIndexing.cpp",name="local numbering, offset exchange and the two-round ghost exchange separated by barriers")])
p("C03","Halo exchange lists on two processes always mirror each other",
"After reading a distributed mesh, and after any sequence of additional pull requests has been processed collectively, the list of elements process A will send to process B is the same list, in the same order, as the elements B expects from A. Each such element is owned by A, known to B as a non-owned element, every requested element is included, and nothing is listed twice.",
["histories","configurations","schedules"],"all partitionings and all histories of collective pull requests",
"Every repository test runs on one process, where both lists are empty.",
["kernel/Base/Submesh.h","kernel/Base/Submesh.cpp","kernel/Base/MeshManipulator_Impl.h"],
[dict(where="kernel/Base/Submesh.cpp",name="pull request collection and the all-to-all exchange that builds push lists")])
p("C04","Parallel time stepping equals single-process time stepping",
"For every partitioning and process count, an explicit time step produces on each owning process the same coefficients as the same step on one process. After every synchronisation of a coefficient vector, each ghost copy equals the owner's value and no owner's value has changed.",
["schedules","configurations","inputs"],"all partitionings, process counts, time integration schemes, and message interleavings",
"No repository test runs with more than one process, so ghost updates and the reductions are dead code in the test suite.",
["kernel/Base/HpgemAPIBase_Impl.h","kernel/Base/HpgemAPISimplified_Impl.h","kernel/Base/MpiContainer.h","kernel/Base/MpiContainer.cpp"],
[dict(where="kernel/Base/HpgemAPIBase_Impl.h",name="synchronize: receive/send per element tagged by element id, then a global sync")])
p("C05","A distributed mesh read is exactly the mesh in the file",
"For every valid mesh file and number of processes, each element of the file is owned by exactly one process (the one the file assigns), and owned plus ghost elements on a process are exactly the elements the file assigns to it. On every process the local faces, edges and nodes have exactly the incidences to those elements that the file states, with the same identifiers for the same object on every process, and a face is reported as domain boundary, internal or subdomain boundary according to the elements it touches and their owners.",
["inputs","configurations"],"all valid mesh files (dimension, element shapes, periodic connections, zones, partitionings)",
"The reader tests use a handful of files on one process.",
["kernel/Base/MeshManipulator_Impl.h","kernel/Base/MeshFileInformation.cpp","kernel/Base/Mesh_Impl.h","kernel/Base/GlobalUniqueIndex.h","kernel/Base/Face.cpp"],
[dict(where="kernel/Base/MeshManipulator_Impl.h",name="readMesh: per-process filtering, entity creation and identifier reservation")])
p("C06","Partitioned mesh files carry each process's elements and halo",
"For every mesh and every assignment of elements to parts, the written mesh file describes exactly that mesh and assignment. Each element lists as shadow parts exactly the other parts owning an element that shares at least one node with it, each lower-dimensional object lists exactly the parts that own or shadow an element touching it, and the per-part totals in the header match the entries in the body.",
["inputs","configurations"],"all meshes and all element-to-part assignments",
"Existing tests do not execute the mesh writer; halo correctness depends on every partition shape.",
["applications/Preprocessor/lib/output_impl.h","applications/Preprocessor/lib/mesh/MeshImpl/Mesh_Impl.h","applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h","MESHING.md"],
[dict(where="applications/Preprocessor/lib/output_impl.h",name="partition and shadow computation, entry writing")])
p("C07","Generated structured meshes are conforming for every specification",
"For every number of cells per direction, dimension 1 to 3, shape option and set of periodic directions (for triangles and tetrahedra an even number of cells in periodic directions), the generated mesh tiles the box with the promised number of elements, every facet is shared by exactly two elements except non-periodic boundary facets which have one, and all elements incident to the same facet, edge or node agree on its vertices. Opposite sides are identified if and only if that direction is periodic, and node coordinates lie on the requested grid.",
["inputs","configurations"],"all structured-mesh specifications",
"No test covers the generator; a finite set of sizes cannot cover parity and periodicity combinations.",
["applications/Preprocessor/lib/hpgem.cpp","applications/Preprocessor/lib/hpgem.h","applications/Preprocessor/lib/MeshFactory.h","applications/Preprocessor/lib/mesh/MeshImpl/Mesh_Impl.h"],
[dict(where="applications/Preprocessor/lib/hpgem.cpp",name="node/coordinate/element index arithmetic")])
p("C08","Periodic merging identifies exactly the connected entities",
"Given any pairing of coordinates, two coordinates end in the same merged group exactly when they are connected by a chain of pairs, and a lower-dimensional mesh entity is merged with another exactly when their vertices, as seen from their elements, correspond through the pairs, or when a chain of such correspondences connects them. Building a mesh from elements makes elements share an entity exactly when they have the same vertices there; copying, moving and removing unused entities do not change what is described. Executing the merge keeps every element with its own geometry and local structure, and afterwards every entity's list of incident elements is the union of the lists of the entities merged into it.",
["inputs","histories"],"all meshes and all coordinate pairings, including chains and corner/edge closures",
"Unit tests try two small pairings.",
["applications/Preprocessor/lib/MergePlan.h","applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h","applications/Preprocessor/lib/mesh/MeshImpl/MeshEntity_Impl.h","applications/Preprocessor/lib/mesh/MeshImpl/Element_Impl.h","applications/Preprocessor/lib/TransformationConnector.h"],
[dict(where="applications/Preprocessor/lib/MergePlan.h",name="computeMergePlan and executeMerge")])
p("C09","Union-find answers equal the equivalence closure of the unions",
"After any sequence of union and query operations on arbitrary indices, two indices are reported in the same set exactly when they are connected by the unions performed, and the representative returned for an index is a member of its set shared by all members. Iteration visits exactly the indices that have been united with a different index, once each, and queries never change any answer.",
["histories","inputs"],"all sequences of unions and queries",
"Path compression and union by size only matter on long, adversarial histories; the test runs a few.",
["applications/Preprocessor/lib/utils/SparseUnionFind.h","applications/Preprocessor/lib/utils/SparseUnionFind.cpp"],
[dict(where="applications/Preprocessor/lib/utils/SparseUnionFind.cpp",name="findSet/unionSets")])
p("C10","Sparsity estimate equals the true coupling counts of every row",
"For every mesh, partitioning, row and column unknown selection and choice of which unknown pairs couple through faces, the estimate for a row equals the number of distinct columns owned by the same process, and owned by others, that element or face matrices can touch in that row. No row is under- or over-counted (on a distributed mesh, face coupling is only supported for rows of interior functions).",
["inputs","configurations"],"all meshes, partitions, unknown subsets, layouts and coupling tables",
"No test checks the counts; over-counting by one or under-counting on mixed conforming/discontinuous unknowns stays invisible because matrices silently reallocate.",
["kernel/Utilities/SparsityEstimator.cpp","kernel/Utilities/SparsityEstimator.h","kernel/Utilities/Table2D.h"],
[dict(where="kernel/Utilities/SparsityEstimator.cpp",name="DoF set accumulation over elements, faces, edges, nodes")])
p("C11","Assembled global matrix is the sum of all local matrices",
"For every mesh, partitioning and numbering in which each process owns one block of numbers, each entry of the assembled global matrix equals the sum of every element matrix entry and every face matrix entry whose local rows and columns map to that global row and column, each local matrix counted exactly once over all processes. Re-assembly after the values of local matrices change (same nonzero positions) gives the same result as fresh assembly, and the boundary entries reported for a set of faces are exactly the functions of those faces, their edges and their nodes.",
["inputs","configurations","histories"],"all meshes, partitions, layouts and local matrices; repeated assembly",
"Assembly is only exercised on one process and through final error norms.",
["kernel/Utilities/GlobalMatrix.cpp","kernel/Utilities/GlobalMatrix.h","kernel/Base/FaceMatrix.cpp"],
[dict(where="kernel/Utilities/GlobalMatrix.cpp",name="assemble: element pass, owner-only face pass")])
p("C12","Global vectors gather and scatter without loss",
"For every mesh, partitioning and numbering, each entry of an assembled global vector is the sum of the element and face vector entries mapped to it, each counted exactly once over all processes. Building a global vector from stored coefficients and writing it back restores every owned and ghost coefficient, also when restricted to one unknown or to selected unknowns, leaving other unknowns untouched.",
["inputs","configurations","histories"],"all meshes, partitions, layouts, unknown subsets and coefficient values",
"Only single-process end-to-end runs touch this code.",
["kernel/Utilities/GlobalVector.cpp","kernel/Utilities/GlobalVector.h"],
[dict(where="kernel/Utilities/GlobalVector.cpp",name="assemble, constructFromTimeIntegrationVector, writeTimeIntegrationVector")])
p("C13","Refinement maps divide elements exactly and consistently with their faces",
"For every refinement map of every shape, the sub-elements are not degenerate, do not overlap and together are the whole reference element, divided as the documentation of the map shows. The transform of a sub-element takes the vertices of its reference shape to the declared nodes and every other point to the interpolation of those, its left matrix is the derivative of the transform at every point, and its right matrix the inverse of that. Every side of a sub-element either is shared by exactly two sub-elements or is exactly one of the declared sub-faces; the nodes of a divided face are that face's vertices in its own order followed by its new nodes where the map of the face puts them, and each declared sub-face has the nodes the map of the face gives it, so that two neighbours that divide their common face by the same map get the same sub-faces.",
["inputs","histories"],"all maps of all shapes, all sub-elements and sub-faces, all points, and repeated division",
"The unit tests compare the matrices with difference quotients only; they never look where the transforms, nodes and sub-faces lie.",
["kernel/Geometry/Mappings/RefinementMapping.h","kernel/Geometry/Mappings/RefinementMapsForLine.h","kernel/Geometry/Mappings/RefinementMapsForSquare.h","kernel/Geometry/Mappings/RefinementMapsForTriangle.h","kernel/Geometry/Mappings/RefinementMapsForCube.h","kernel/Geometry/Mappings/RefinementMapsForTriangularPrism.h","kernel/Geometry/Mappings/RefinementMapsForTetrahedron.h","kernel/Geometry/Mappings/RefinementMapsForPyramid.h"],
[dict(where="kernel/Geometry/Mappings/RefinementMapping.h",name="RefinementMapping")])
p("C14","Evaluation contexts never return stale values",
"For every sequence of selecting an element or face, a point or quadrature point, a quadrature rule, a coordinate transformation and asking for values, the value returned (basis functions and their derivatives, solution, physical point, Jacobian quantities, normal, result storage) depends only on the current selection. It equals what the selected element or face gives directly: each unknown's own functions under that unknown's transformation, and on a face the functions of both sides, their products with the normal (the opposite normal on the right), and empty result storage of the selected entity's size.",
["histories"],"all sequences of selection changes and queries on element and face evaluation contexts",
"Tests query freshly positioned contexts; a missed invalidation shows only for specific orders of selection and query.",
["kernel/Base/PhysicalElement.h","kernel/Base/PhysicalElement_Impl.h","kernel/Base/PhysicalFace.h","kernel/Base/PhysicalFace_Impl.h","kernel/Base/LazyCached.h","kernel/Base/Element_Impl.h","kernel/Integration/QuadratureRules/GaussQuadratureRule.h"],
[dict(where="kernel/Base/PhysicalElement_Impl.h",name="has* flags and their invalidation in the setters"),dict(where="kernel/Base/PhysicalFace_Impl.h",name="has* flags and their invalidation in the setters"),dict(where="kernel/Base/LazyCached.h",name="reset/get")])
p("C15","Local numbering of unknown subsets matches the stored layout",
"For every element or face, every selection of unknowns and every sequence of re-initialisations, the local index of a basis function is its position when the selected unknowns' basis functions are laid out one unknown after another in increasing order (left side before right side on a face). Sizes and offsets agree with that layout, and a basis function of an unselected unknown has no index.",
["histories","inputs"],"all selections, basis function counts per unknown and re-initialisation sequences",
"The unit test checks one element and one face.",
["kernel/Utilities/ElementLocalIndexing.h","kernel/Utilities/ElementLocalIndexing.cpp","kernel/Utilities/FaceLocalIndexing.h","kernel/Utilities/FaceLocalIndexing.cpp"],
[dict(where="kernel/Utilities/ElementLocalIndexing.cpp",name="reinit and index computation")])
p("C16","Element and face data storage returns the last value stored",
"For every sequence of storing and reading coefficients, time-level data, time-integration vectors, local matrices and vectors on elements and faces (whole, per unknown or per entry), a read returns what the latest overlapping writes stored (entries never written are unspecified), and writes to one slot never alter another. A face's composite matrix read as one matrix has each side's block at the position of that side's degrees of freedom.",
["histories"],"all sequences of writes and reads over unknowns, basis function counts and slots",
"Unit tests write and read a few slots with uniform basis function counts.",
["kernel/Base/ElementData.h","kernel/Base/ElementData.cpp","kernel/Base/FaceData.h","kernel/Base/FaceData.cpp","kernel/Base/FaceMatrix.h","kernel/Base/FaceMatrix.cpp"],
[dict(where="kernel/Base/ElementData.cpp",name="slot storage and index conversion"),dict(where="kernel/Base/FaceMatrix.cpp",name="block placement")])
p("C17","Command lines are parsed into exactly the options given",
"For every argument list, options given by long name, short name or grouped short flags receive exactly the argument that follows them, later occurrences override earlier ones, options not mentioned keep their default and report unused. Unknown options, missing arguments, unparsable numbers and absent required options are rejected, and everything after the separator is left for other libraries.",
["inputs"],"all argument lists over registered options",
"Tests never call the parser with adversarial lists.",
["kernel/Base/CommandLineOptions.h","kernel/Base/CommandLineOptions.cpp"],
[dict(where="kernel/Base/CommandLineOptions.cpp",name="CLOParser::go")])
p("C18","Time loop hits every output time and the final time exactly once",
"For every start time, end time, time step and number of output frames, the solve loop advances with steps no larger than requested, ends at the end time, and writes the initial state plus exactly one frame at each output time, in order. Every step evaluates the scheme's stages at the prescribed stage times on the prescribed combinations, an adaptive step is accepted exactly when the estimated error is within the requested fraction of the norm of the solution, and a rejected one leaves the state as it was before the step.",
["inputs","histories"],"all time intervals, step sizes, frame counts, schemes and accept/reject histories",
"Tests run a few fixed settings and look at final errors with tolerance.",
["kernel/Base/HpgemAPISimplified_Impl.h","kernel/Base/TimeIntegration/ButcherTableau.h"],
[dict(where="kernel/Base/HpgemAPISimplified_Impl.h",name="solve and computeOneTimeStep")])
p("C19","Visualisation files describe the mesh and data that were written",
"For every mesh, partitioning, number of frames and set of registered fields, each written piece contains every owned element once with connectivity into its own points, the number of data values equals the number of points, and encoded values decode to the values supplied. The index files list every frame with its time and every piece exactly once, and name the fields with their number of components. Tecplot zones likewise contain every owned element once with its coordinates and data and correct counts.",
["inputs","configurations","histories"],"all meshes, partitions and write sequences",
"No test reads the written files back.",
["kernel/Output/VTKSpecificTimeWriter_Impl.h","kernel/Output/VTKTimeDependentWriter_Impl.h","kernel/Output/base64.cpp","kernel/Output/TecplotDiscontinuousSolutionWriter_Impl.h","kernel/Output/VTKLagrangeTetrahedron.cpp"],
[dict(where="kernel/Output/VTKSpecificTimeWriter_Impl.h",name="point/connectivity/offset generation"),dict(where="kernel/Output/base64.cpp",name="encoding")])
p("C20","Both sides of a face agree on every point of the face",
"For every supported element shape, every facet and every way a neighbouring element can be numbered or rotated relative to it, a point on the face's reference shape mapped through the left element and through the right element reaches the same physical point. On every face, also of distorted elements, the normal vector points from left to right, is perpendicular to the face and has the length of the surface element, and the Jacobian of an element is the derivative of its mapping, whose inverse leads back to the reference point. Reference facets, edges and nodes of each shape are mutually consistent: every facet's vertices are the images of its reference vertices and every edge or node of a facet is one of the element's.",
["inputs","configurations"],"all shapes, facets and relative orientations of neighbours",
"Tests check selected orientations; agreement is needed for all of them.",
["kernel/Geometry/FaceGeometry.cpp","kernel/Geometry/ReferenceGeometry.h","kernel/Geometry/ReferenceCube.cpp","kernel/Geometry/ReferenceSquare.cpp","kernel/Geometry/ReferenceTriangle.cpp","kernel/Geometry/ReferenceTetrahedron.cpp","kernel/Geometry/ReferenceTriangularPrism.cpp","kernel/Geometry/ReferencePyramid.cpp"],
[dict(where="kernel/Geometry/FaceGeometry.cpp",name="initialiseFaceToFaceMapIndex and right-side mapping")])
p("C21","Basis function bookkeeping follows every change of basis",
"After any sequence of assigning interior, facet, edge and node basis function sets per unknown to the elements of a mesh, each element's number of basis functions, the share attributed to its interior, each facet, edge and node, and the value returned for each local basis function match the sets assigned last. Elements sharing a facet, edge or node attribute the same number of functions to it, and stored coefficient sizes follow.",
["histories","inputs"],"all sequences of basis assignments per unknown",
"Tests assign a basis once.",
["kernel/Base/ElementBasisFunctions.h","kernel/Base/ElementBasisFunctions.cpp","kernel/Base/Element.cpp","kernel/Base/MeshManipulator_Impl.h"],
[dict(where="kernel/Base/ElementBasisFunctions.cpp",name="set registration and local-number lookup")])
p("C22","Conforming basis functions are continuous across faces",
"With the default conforming basis of any order on lines, triangles, squares, tetrahedra and cubes, and of order one on prisms and pyramids, every function of a node, edge or facet has the same values seen from all elements around it, and all functions of other entities vanish on a face they do not belong to, for every relative numbering of neighbouring elements, also when the mesh is periodic and when several unknowns use bases of different orders. The functions of the nodes add up to one.",
["inputs","configurations"],"all relative orientations of neighbouring elements, all shapes and orders",
"Tests evaluate the functions on the reference element and use meshes with few orientations.",
["kernel/FE/BasisFunctions2DH1ConformingSquare.cpp","kernel/FE/BasisFunctions2DH1ConformingTriangle.cpp","kernel/FE/BasisFunctions3DH1ConformingCube.cpp","kernel/FE/BasisFunctions3DH1ConformingTetrahedron.cpp","kernel/Base/MeshManipulator_Impl.h","kernel/FE/OrientedBasisFunctionSet.h"],
[dict(where="kernel/Base/MeshManipulator_Impl.h",name="useDefaultConformingBasisFunctions")])
p("C23","Dense linear algebra gives the defined result for all operands",
"For matrices and vectors of every size (the fixed size ones up to four, real or complex), sums, scalings, products, axpy, transposes, concatenations, rows and columns, determinants, cross and wedge products, norms and comparisons have the values their definitions give. Solutions, inverses, Cholesky factors and triangular solves (either side, transposed or conjugate) satisfy their equations. An operation changes only the object it writes, and the result does not depend on whether operands coincide with each other or with the result.",
["inputs","histories"],"all sizes, values and ways in which operands coincide",
"Tests use one or two sizes and distinct operands, and do not run the complex solvers.",
["kernel/LinearAlgebra/MiddleSizeMatrix.cpp","kernel/LinearAlgebra/MiddleSizeVector.cpp","kernel/LinearAlgebra/SmallMatrix.h","kernel/LinearAlgebra/SmallMatrix_impl.h","kernel/LinearAlgebra/SmallVector.h"],
[dict(where="kernel/LinearAlgebra/MiddleSizeMatrix.cpp",name="MiddleSizeMatrix"),dict(where="kernel/LinearAlgebra/SmallMatrix_impl.h",name="SmallMatrix")])
p("C24","The Preprocessor reads the mesh that is in the file",
"For every valid gmsh file (msh 2.2, text, with sections in any order the reader accepts, any node numbering, any line ending, elements with any number of tags, lower dimensional elements in between), Centaur file (2D, and 3D in one or several lines per group, first or second order) and hpGEM mesh file (version 1), the mesh that is read has exactly the points of the file, the elements of the mesh's dimension in the order of the file with the same vertices joined by the same edges (second order nodes halfway the same edge), for every element its zone (the physical name, else the tag, else the default; element data where there are no names; the Centaur zone), and exactly the identifications of periodic points of the file, or none when periodicity is ignored.",
["inputs"],"all valid files of the supported formats",
"The unit tests read three small files in two dimensions; nothing reads Centaur files or 3D gmsh files.",
["applications/Preprocessor/lib/gmsh.cpp","applications/Preprocessor/lib/centaur.cpp","applications/Preprocessor/lib/hpgem.cpp","applications/Preprocessor/lib/ElementReorder.cpp","applications/Preprocessor/lib/FortranUnformattedFile.cpp","applications/Preprocessor/lib/MeshFactory.h"],
[dict(where="applications/Preprocessor/lib/gmsh.cpp",name="GmshReader"),dict(where="applications/Preprocessor/lib/centaur.cpp",name="CentaurReader"),dict(where="applications/Preprocessor/lib/hpgem.cpp",name="PreprocessorReader"),dict(where="applications/Preprocessor/lib/MeshFactory.h",name="fromMeshSource")])
p("C25","Element and face integrals are exact for polynomials",
"For every reference shape and every order for which a quadrature rule can be requested, the rule returned has its points in the shape and integrates all polynomials up to the requested order, and up to the order it declares, exactly (in each coordinate separately on squares and cubes). After any sequence of assigning basis functions of different orders to the unknowns of a mesh, the default rule of every element and of every face is exact for products of two basis functions, on both sides of a face. Integrating over elements and faces, also distorted ones and on both sides of periodic faces, with function objects or integrand classes, with or without the Jacobian applied by the library, gives the exact integrals of coordinates and of fluxes through the faces, so that Gauss' theorem holds on every element.",
["inputs","histories"],"all shapes, orders, vertex positions for which the mapping is polynomial and sequences of assignments of bases",
"The unit tests integrate some basis functions on some shapes, not to the declared order, nothing on pyramids; rules of faces are not tested.",
["kernel/Integration/QuadratureRules/","kernel/Integration/ElementIntegral_Impl.h","kernel/Integration/FaceIntegral_Impl.h","kernel/Base/Element.cpp","kernel/Base/Face.cpp"],
[dict(where="kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp",name="getRule"),dict(where="kernel/Base/Element.cpp",name="setQuadratureRulesWithOrder"),dict(where="kernel/Integration/ElementIntegral_Impl.h",name="integrate"),dict(where="kernel/Integration/FaceIntegral_Impl.h",name="integrate, integratePair")])
p("C26","A k-shifted matrix is the periodic matrix with the phases of the last wave vector",
"After any sequence of wave vectors has been applied to a matrix, on any number of processes, each entry that couples functions across a periodic face is the entry of the plain periodic matrix times e^{ik.(x-y)}, where x and y are the positions of the same point as seen by the element of the row and the element of the column (plus the extra shift that was asked for), and every other entry is unchanged: earlier wave vectors leave no trace. In a matrix between conforming and discontinuous functions the functions of each node, edge and face carry no phase on one of their elements and the phase of the lattice vector between the views on every other element, for all nodes, edges and faces on the periodic boundary. (Two elements share at most one face; conforming functions on triangles, squares and tetrahedra.)",
["histories","configurations","inputs"],"all wave vectors and orders of applying them, periodic meshes, distributions",
"The tests compute a few band structures on one process and compare a few digits of the lowest frequencies.",
["applications/DG-Max/Utils/KPhaseShift.cpp","applications/DG-Max/Utils/MatrixBlocks.cpp","applications/DG-Max/Utils/FaceKPhaseShiftBuilder.cpp","applications/DG-Max/Utils/CGDGMatrixKPhaseShiftBuilder.cpp","applications/DG-Max/Utils/KPhaseShiftHelpers.h"],
[dict(where="applications/DG-Max/Utils/KPhaseShift.cpp",name="KPhaseShifts::apply"),dict(where="applications/DG-Max/Utils/FaceKPhaseShiftBuilder.cpp",name="facePhaseShift"),dict(where="applications/DG-Max/Utils/CGDGMatrixKPhaseShiftBuilder.cpp",name="build, addElementPhaseShift")])
p("C27","Functions of an element span the polynomials of their order and are differentiated exactly",
"For every shape and order for which the library has functions (monomials, the default discontinuous and conforming ones, Nedelec and Ainsworth-Coyle functions on simplices), the functions of an element are linearly independent, have a span that contains all polynomials of that order (in each coordinate separately on squares and cubes, one order less in the Nedelec functions), and as many functions as that span has dimensions. On every element, also distorted ones and however its vertices are numbered, the gradient and the curl that the library returns are the derivatives of the values it returns with respect to physical coordinates, with scalar functions carrying their reference value and vector functions mapped so that their circulation along (or, when asked for, their flux through) the images of reference directions is kept.",
["inputs"],"all shapes, orders, functions, elements and points",
"The unit tests compare derivatives with finite differences on the reference element with loose tolerance for some orders and do not look at the span.",
["kernel/FE/","kernel/Base/H1ConformingTransformation.h","kernel/Base/HCurlConformingTransformation.h","kernel/Base/HDivConformingTransformation.h","kernel/Base/PhysicalElement_Impl.h"],
[dict(where="kernel/FE/BasisFunctions3DH1ConformingCube.cpp",name="evaluation and derivatives"),dict(where="kernel/FE/BasisFunctions3DNedelec.cpp",name="eval, evalCurl"),dict(where="kernel/Base/HCurlConformingTransformation.h",name="transform, transformCurl"),dict(where="kernel/Base/PhysicalElement_Impl.h",name="basisFunction, basisFunctionDeriv, basisFunctionCurl")])
p("C28","A time integration scheme has the order, stages and properties it is looked up by",
"For every order and number of stages for which a scheme is found, the scheme has that many stages, all order conditions up to that order hold (so the local error is of that order for every right-hand side, also one that depends on time: the time of a stage is the sum of its coefficients), a scheme marked total variation diminishing is a convex combination of forward Euler steps, and the embedded error estimate vanishes for everything a scheme of one order less gets right and not beyond. A lookup prefers a scheme with the asked total variation property, accepts one without it otherwise, and fails for every other combination.",
["inputs"],"all right-hand sides; all lookups",
"The unit test integrates right-hand sides that do not depend on time with a loose tolerance, and not with every scheme.",
["kernel/Base/TimeIntegration/"],
[dict(where="kernel/Base/TimeIntegration/AllTimeIntegrators.cpp",name="getRule"),dict(where="kernel/Base/TimeIntegration/DormandPrince.cpp",name="coefficients"),dict(where="kernel/Base/TimeIntegration/RK3TVD.cpp",name="coefficients"),dict(where="kernel/Base/TimeIntegration/BogackiShampine.cpp",name="coefficients")])
p("C29","A linear problem is its matrices applied to its coefficients",
"In the interface for linear problems, once the matrices have been created, the right-hand side for any coefficient vector or linear combination of them is, on every element, its stiffness matrix times its coefficients plus, for each of its faces, the blocks of the face matrix times the coefficients of both sides, plus the source terms of the element and of its boundary faces at the given time; solving the mass matrix equations gives a vector whose product with the mass matrix is the vector before. A steady state that is solved for makes the stiffness matrix times the solution plus all source terms zero. The results are the same on any number of processes, and copies of elements on other processes equal the original after each operation.",
["inputs","configurations","histories"],"all matrices, coefficients, combinations, sources, meshes and distributions",
"No test calls the linear interface on more than one process or compares its matrix products with anything.",
["kernel/Base/HpgemAPILinear_Impl.h","kernel/Base/HpgemAPILinearSteadyState_Impl.h"],
[dict(where="kernel/Base/HpgemAPILinear_Impl.h",name="multiplyStiffnessMatrices, solveMassMatrixEquations, computeRightHandSide"),dict(where="kernel/Base/HpgemAPILinearSteadyState_Impl.h",name="createSourceTerms, solveSteadyStateWithPetsc")])
p("C30","Initial solutions are projections and reported errors are norms",
"The default initial solution (and source term) of a problem on any mesh, also of distorted elements, for any number of unknowns reproduces every polynomial that the basis contains, at the time and derivative asked for, on every element including the copies of elements of other processes. The default total error is the L2 norm over the whole domain of the difference between the exact and the numerical solution over all unknowns, and the default maximal error is the largest difference of each unknown, the same on every process.",
["inputs","configurations"],"all meshes, distributions, orders and polynomials",
"The unit tests compare some errors with stored values, on one process.",
["kernel/Base/HpgemAPISimplified_Impl.h","kernel/Base/HpgemAPILinear_Impl.h"],
[dict(where="kernel/Base/HpgemAPISimplified_Impl.h",name="setInitialSolution, computeTotalError, computeMaxError"),dict(where="kernel/Base/HpgemAPILinear_Impl.h",name="addSourceTerm")])
p("C31","Elements of second order with curved edges",
"On meshes of triangles and tetrahedra of second order the position of every point of an element is the quadratic interpolation of its nodes, its Jacobian is the derivative of that position and the way back from a physical point finds the reference point. Both elements of a face agree on every point of it, whatever their numbering and also across periodic boundaries; the normal is the outward derivative of the face itself; integrals over elements and faces are those of the curved shape, so the fluxes out of an element add up to the integral of the divergence. Basis functions are associated with vertices, edges, faces and elements as on straight elements, nodes in the middle of edges have none, and conforming functions are continuous across curved faces.",
["inputs","configurations"],"all numberings of neighbours, node positions, orders and histories of assigning bases",
"The tests evaluate the mappings of single curved elements; no test has two curved neighbours or basis functions on them.",
["kernel/Geometry/","kernel/Geometry/Mappings/","kernel/Base/Edge.cpp","kernel/Base/MeshManipulator_Impl.h"],
[dict(where="kernel/Geometry/ReferenceCurvilinearElement_Impl.h",name="ReferenceCurvilinearElement"),dict(where="kernel/Geometry/Mappings/MappingToPhysTetrahedronQuadratic.cpp",name="transform, calcJacobian"),dict(where="kernel/Geometry/Mappings/MappingToPhysTriangleQuadratic.cpp",name="transform, calcJacobian"),dict(where="kernel/Base/Edge.cpp",name="addElement")])
p("C32","DG-Max: the forms of the curl-curl equation",
"For every mesh of triangles or tetrahedra, distribution of materials and kind of boundary, DG-Max assembles the symmetric interior penalty forms of the curl-curl equation: the mass with the permittivity of the element, the curls divided by its permeability, on faces between elements minus the averages of the curls (each divided by its own permeability) times the jumps of the tangential parts plus the penalty divided by the diameter of the face, on Dirichlet boundaries the same with the values of one side, nothing for natural boundaries and the impedance term for Silver-Mueller boundaries. Source and boundary vectors, the projector on gradients, fields and their curls at points, integrals over faces, the energy that passes a face (with and without a background field) and the errors in L2 and H(curl) are those of the same fields. Asking for the inverse mass matrix or for orthonormal functions changes the representation only, not the forms; recomputing only vectors replaces them and leaves the matrices.",
["inputs","configurations"],"all fields, materials, numberings of neighbours, boundary kinds, orders, representations and processes",
"The tests of DG-Max compute convergence rates and eigenvalues on a few uniform meshes, mostly with one material.",
["applications/DG-Max/Algorithms/","kernel/Integration/","kernel/Base/HCurlConformingTransformation.h"],
[dict(where="applications/DG-Max/Algorithms/DGMaxDiscretization.cpp",name="computeElementIntegralsImpl, computeFaceIntegralsImpl, computeFaceMatrix, faceVector, computeFields, computeEnergyFluxes"),dict(where="applications/DG-Max/ElementInfos.cpp",name="ElementInfos")])
p("C33","DG-Max: the mixed forms with the divergence",
"For every mesh of triangles or tetrahedra, distribution of materials, kind of boundary and choice of fluxes, the divergence conforming discretisation of DG-Max assembles the forms of its mixed formulation: for the field the same mass, curl, face, impedance and boundary terms as the curl-curl equation; between field and potential minus the product of the field (with the permittivity) and the gradient plus, on every face, the average of the normal components (each with its own permittivity) times the jump of the potential, in both directions the same; and the stabilisations of the tangential jump, of the jump of the normal component (with the permittivities, only between elements) and, negative, of the jump of the potential. Each stabilisation is either a penalty with the diameter of the face or the product of liftings of the jumps, chosen independently of the others; liftings vanish for continuous functions, and boundary data that are those of a field give the same as that field. Fields, curls, potentials, energy fluxes, integrals over faces and errors are those of the same functions.",
["inputs","configurations"],"all fields, potentials, materials, numberings of neighbours, boundary kinds, orders, fluxes and processes",
"The tests of DG-Max compute convergence rates and eigenvalues on a few uniform meshes with one kind of flux and mostly one material, where the normal stabilisation is off.",
["applications/DG-Max/Algorithms/","kernel/Integration/"],
[dict(where="applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp",name="computeElementMatrices, faceStiffnessMatrixFieldIntegrand, addFaceMatrixPotentialIntegrand, brezziFluxBilinearTerm, faceBoundaryVector, brezziFluxBoundaryVector, computeEnergyFluxes")])
p("C34","DG-Max: energy fluxes through the boundaries of zones",
"For every mesh, division into zones and distribution over processes, the facets are exactly the pairs of different zones that share a face and the zones with faces on the boundary, listed in the same order and with the same names on every process. The flux of a facet is the sum of the fluxes of all its faces, each counted once no matter how many processes know it, taken out of the zone with the lower number (out of the domain on the boundary); faces inside a zone do not count. All processes get the same values.",
["inputs","configurations"],"all meshes, zones, orientations of faces and distributions",
"The tests of fluxes use one process and two zones.",
["applications/DG-Max/Utils/FluxFacets.cpp","kernel/Base/Zone.h"],
[dict(where="applications/DG-Max/Utils/FluxFacets.cpp",name="FluxFacets, generateZoneOrdering, computeFluxes")])
p("C35","DG-Max: band structures of homogeneous media and paths in k-space",
"For every reduced lattice, permittivity, point and bound, the spectrum of the homogeneous medium is the set of all frequencies |k - G| / n below the bound with G in the reciprocal lattice, in increasing order and each as often as there are lattice points, twice in three dimensions and once more for zero; grouping gives the same with multiplicities. The lines between two points are all bands that come below the bound between them, with their multiplicity and the frequency of that lattice point at every position. A path in k-space visits its corners in order with the same number of equal steps between them, reports the step and reports every change of it.",
["inputs"],"all lattices, permittivities, points, bounds and paths",
"The repository uses these as the reference of two self tests, at three points of one lattice; nothing tests degenerate modes, skew lattices or lines.",
["applications/DG-Max/Utils/"],
[dict(where="applications/DG-Max/Utils/HomogeneousBandStructure.cpp",name="computeLinearSpectrum, computeLines"),dict(where="applications/DG-Max/Utils/BandstructureUtils.cpp",name="group, LatticePoint"),dict(where="applications/DG-Max/Utils/KSpacePath.cpp",name="KSpacePath")])
p("C36","DG-Max: absorbing layers and the materials of zones",
"For every absorbing layer, point, wave number and material, the permittivity and permeability of a direction are those of the material times the stretching of the two other directions divided by that of this direction, where a coordinate is stretched by 1 + i (scaling / depth^3) distance^2 / wave number beyond the edge of the layer and not at all before it; dividing the field by the stretching, and its curl by that of the other two directions, gives the original ones, and adjoints are conjugates. A wave number set for a group reaches all layers of it that still exist; the scaling computed for an attenuation gives that attenuation on the way there and back. For every mesh, division into zones and distribution over processes, the transmission of a zone is the root of the integral of the field over the far ends of its layers (faces on the boundary whose outward normal points in an absorbing direction, each counted once) divided by their area, the same on every process, for exactly the zones that have such faces. Elements get the material of the first pattern that the name of their zone fits, the default if none does, and an error without a default.",
["inputs","configurations"],"all layers, points, materials, meshes, zones, patterns and distributions",
"The test of layers computes one reflection on one process with a layer in one direction; nothing tests corners, several processes or zones.",
["applications/DG-Max/PMLElementInfos.h","applications/DG-Max/MaterialTensor.h","applications/DG-Max/Utils/","kernel/Base/Zone.cpp"],
[dict(where="applications/DG-Max/PMLElementInfos.h",name="PMLElementInfos"),dict(where="applications/DG-Max/MaterialTensor.h",name="MaterialTensor"),dict(where="applications/DG-Max/Utils/PMLTransmission.cpp",name="PMLTransmission, pmlTransmission"),dict(where="applications/DG-Max/Utils/ZoneStructureDescription.cpp",name="createElementInfo")])
p("C37","DG-Max: waves, reflections and the problems made from them",
"For every wave vector, polarisation, phase, material and point, the curl, the curl of the curl (with isotropic and diagonal materials) and the energy flux that a plane wave reports are those of its field; made from a frequency and a direction it lies on the dispersion relation of the material. A reflection at an interface is the sum of incident and reflected wave on one side and the transmitted one on the other, on whichever side and wherever the interface lies, such that tangential field, curl over permeability and energy flux are continuous and both sides solve the homogeneous equation. A problem with such a field as exact solution has the source term curl mu^-1 curl E - omega^2 eps E with the material of the element, and on its boundaries the tangential field, the curl over the permeability, or that with the impedance term, with the outward normal and the material of the element there; a scattering problem has the negative of that source outside of absorbing layers, none in them, and zero boundary values.",
["inputs","configurations"],"all waves, materials, interfaces, points, boundary kinds and meshes",
"The tests use one wave along an axis and one interface; nothing tests other polarisations, phases, anisotropic materials or boundary data pointwise.",
["applications/DG-Max/ProblemTypes/","applications/DG-Max/Utils/PlaneWave.h","applications/DG-Max/Material.h"],
[dict(where="applications/DG-Max/Utils/PlaneWave.h",name="PlaneWave"),dict(where="applications/DG-Max/ProblemTypes/Harmonic/InterfaceReflectionField.h",name="InterfaceReflectionField"),dict(where="applications/DG-Max/ProblemTypes/HarmonicProblem.h",name="ExactHarmonicProblem::boundaryCondition"),dict(where="applications/DG-Max/ProblemTypes/Harmonic/ScatteringProblem.h",name="sourceTerm")])
p("C38","Shallow granular flow: exchange over faces, mass and limiters",
"For every mesh of lines, rectangles and triangles (periodic or not, in any numbering, on any number of processes), every polynomial order and every state of the layer, the time derivative computed by the Savage-Hutter application is that of the discontinuous Galerkin form with the fluxes of shallow flow: over an interior face both elements see the same two-wave (HLL) flux along the normal, whichever of them is called left, so one loses exactly what the other gains and equal states exchange the exact flux; faces at a fast inflow, a fast outflow and a wall take the inflow, the state inside and its reflection. Nothing is added to the mass and friction never acts along the velocity, so on periodic meshes the mass stays the same in every step, limiters included. Height limiters leave layers that are high enough alone and otherwise keep the mean height (and, in layers above the minimum, the mean discharge) and leave no height below the minimum; the slope limiter keeps means and stays between the means of the neighbours.",
["inputs","configurations"],"all meshes, numberings, orders, states and process counts",
"The repository has no test of this application.",
["applications/SavageHutter/"],
[dict(where="applications/SavageHutter/SavageHutter1DBase.cpp",name="integrandsAtFace, hllcFlux"),dict(where="applications/SavageHutter/SavageHutter2DBase.cpp",name="integrandsAtFace, hllcFlux, integrandRightHandSideOnRefFace"),dict(where="applications/SavageHutter/SavageHutterBase_Impl.h",name="computeOneTimeStep, limitSolutionOuterLoop"),dict(where="applications/SavageHutter/HeightLimiters/PositiveLayerLimiter_Impl.h",name="limit"),dict(where="applications/SavageHutter/SlopeLimiters/TvbLimiter1D.cpp",name="limitWithMinMod")])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
