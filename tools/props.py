# metadata of the properties: single source of properties.jsonl and MANIFEST.json
VF = "gated value-flow (provenance) dataflow over the clang AST, compared with a specification table"
JP = "src/parser/json/Parser.cpp"
PROPS = []


def P(**k):
    PROPS.append(k)


P(id="C01", title="Keywords of the problem file mean exactly what the format says",
  statement="When a problem file is read, each documented keyword (material, connector, output, generator, excitation and boundary kinds, "
            "axis labels, hardness) selects exactly its documented meaning. Blanks around output, generator, material, connector and nodal keywords are ignored. "
            "Any other text in such a place is refused with an error instead of being mapped to some default.",
  over=["inputs"], forall="every string that can appear as a keyword, including ones no sample file uses",
  why="The reader tests load six sample files that use a handful of the keywords; no test feeds an unknown keyword or the rarer kinds.",
  files=[JP], mech=[("strTo* decoders: if/compare ladders ending in throw", JP)], observe=["decoded enumerator or created boundary class"],
  technique=VF + " (complete decision table of each decoder)",
  note="Exact table extraction: all constants compared with the input plus the 'none of them' row; undecidable rows are reported as undecided in the evidence, not as violations.")
P(id="C02", title="Material data read from a file reaches the getters unchanged",
  statement="For every kind of material in a problem file, the created model is of the documented kind, carries the given identifier and name, and each electrical "
            "or geometrical quantity it reports is the value of the corresponding field (absolute permittivities and permeabilities being the relative ones times the vacuum constants). "
            "Tensors of anisotropic materials have the given principal values in the given local axes and are reported in global axes. "
            "Unknown variants of wires, anisotropic and surface-impedance materials are refused.",
  over=["inputs"], forall="all material entries of every kind, with any field values, with or without identifier and name",
  why="Sample files contain PEC, PMC and a wire; dispersive wires, crystals, ferrites, multilayers, connectors are never read by a test and no test compares the quantities with the file.",
  files=[JP, "src/core/physicalModel"], mech=[("material reader", JP + " readPhysicalModel, readMultilayerSurface"), ("constructors and getters", "src/core/physicalModel/**")],
  technique=VF,
  note="Decides provenance (which field, which unit factor, which component) for reader+constructor+getter as one flow; numeric rounding and json library are trusted.")
P(id="C03", title="Source definitions read from a file reach the getters unchanged",
  statement="Each source entry of a problem file becomes a source of the kind its sourceType names (plane wave, generator, source on line, waveguide port, TEM port), and what its getters report "
            "(type, hardness, direction and polarization, random parameters, excitation mode, mode numbers, origin and radii, and the magnitude's file, spread, delay or band) is exactly what the entry states. "
            "Entries that are not physically meaningful (null or non perpendicular plane wave vectors, a plane wave layer without volume, mode (0,0), non positive or inverted frequencies, unknown kinds) are refused with an error.",
  over=["inputs"], forall="all source entries of every kind and variant with any field values",
  why="The sample files hold a few sources whose values are only counted; most kinds, and every refusal, are never exercised.",
  files=[JP, "src/core/source"], mech=[("source readers", JP + " readSources, readPlanewave, readGenerator, readSourceOnLine, readPort*, readMagnitude"), ("constructors and getters", "src/core/source/**")],
  technique=VF + " and constant propagation through the refusal gates",
  note="Exact for which field reaches which getter; refusals are decided on representative constants of each input class.")
P(id="C04", title="Output requests and their domain read from a file are kept exactly",
  statement="Each output request of a problem file becomes a request of the documented class for its type and location kind, reports the given name and the requested type, and applies to the elements its own location field designates. "
            "Its domain reports time, frequency and transfer function data exactly when the entry has them, with the given values; the far field angles are those given, in radians; bulk currents keep direction and skip. "
            "Unknown types and location kinds are refused.",
  over=["inputs"], forall="all output request entries: every (type, location) pair and every subset of domain fields",
  why="Tests read a few requests in the time domain; frequency sweeps, transfer functions, far fields and magnetic bulk currents are never compared with the file.",
  files=[JP, "src/core/outputRequest"], mech=[("output request reader", JP + " readOutputRequest, readDomain"), ("constructors and getters", "src/core/outputRequest/**")],
  technique=VF,
  note="All pairs and all 8 presence patterns are enumerated; exact on provenance.")
P(id="C05", title="The mesh described in a file is built entry by entry",
  statement="Every coordinate, layer, element, coordinate reference, element reference and connector listed in the mesh part of a problem file becomes exactly one object of the documented kind, "
            "with the given identifier, position, name, corner coordinates in the given order, layer and material; an element whose layer or material number is 0 has none. "
            "No entry is skipped. A layer box becomes the volume, surface, line or point element of its dimension. Files with a mesh section lacking layers, coordinates or elements are refused by the section readers.",
  over=["inputs"], forall="all coordinate, layer, element, box, connector and reference entries, whatever their number and values",
  why="Tests count the elements of a few sample meshes; they do not compare identifiers, node order, layers and materials with the text, and never read tetrahedra or connectors.",
  files=[JP, "src/parser/json/Parser.h", "src/core/geometry/element", "src/core/geometry/layer", "src/core/geometry/coordinate"],
  mech=[("mesh section readers", JP + " readElements, readElemStrAs, readLayers, readCoordinates, boxToElemGroup, readConnectorOnPoint, readGeometricMesh"), ("reference readers", "src/parser/json/Parser.h readElemIdsAsGroupOf")],
  observe=["getters of the mesh objects"],
  technique=VF + " and recognition of whole-container loops",
  note="Columns and their use are exact; a loop form that is not recognised is reported undecided. Group insertion itself is C09.")
P(id="C06", title="The grid described in a file is the grid that is built",
  statement="A grid entry of a problem file yields the grid it states: a box divided in the given numbers of cells, a box with the given cell size (adjusted, when fitting to the box is asked, so that a whole number of cells of nearest size, "
            "at least one, fills each side), the listed line positions, or the positions listed in a separate grid file. Boundary paddings, when present, enlarge each bound by its own padding with its own cell size, "
            "the padding being a length or a number of cells. Grids without extension, grid files with an empty direction, unknown grid types and files without grids are refused.",
  over=["inputs"], forall="all grid entries of every type, with any numbers",
  why="The samples contain two kinds of grids with the same value in the three axes; fitting, paddings and files with positions are never read by a test.",
  files=[JP, "src/core/geometry/Box.hpp"], mech=[("grid reader", JP + " readGrids, strToBox, strToCVecR3, strToCVecI3")],
  observe=["arguments of the Grid3 constructor and of Grid3::enlarge"],
  technique=VF + "; constant propagation through the extracted terms for computed sizes",
  note="What Grid3 does with its constructor arguments is C10.")
P(id="C07", title="A problem file is assembled completely",
  statement="Reading a problem file of the supported version returns a data set whose solver information, materials, mesh, sources and output requests are the ones read from the corresponding sections of that very file, connectors being added to its materials and mesh. "
            "Every entry of the material, source and output request lists is read by the reader of its kind and kept; none is skipped. Every solver option is kept under its own key with its value (texts verbatim, booleans as 1 or 0, numbers as written, nested objects as nested options). "
            "The geometry is scaled by the geometryScalingFactor option when there is one mesh and one solver section. Files of another version are refused; files without mesh are readable.",
  over=["inputs"], forall="all problem files, whatever the number of entries in each list and the nesting of options",
  why="Tests compare element counts of six sample files; dropped entries beyond those, options of other kinds and other versions never occur in them.",
  files=[JP, "src/core/parser/Parser.cpp"], mech=[("assembly", JP + " read, readPhysicalModels, readSources, readOutputRequests"), ("options", JP + " readSolver, readSolverSettings"), ("scaling", "src/core/parser/Parser.cpp postReadOperations")],
  observe=["Data"], technique=VF + " and recognition of whole-container loops",
  note="The section readers themselves are C02 to C06; JSON syntax errors are left to the json library.")
P(id="C08", title="Copies and clones are complete and of the same kind",
  statement="A copy of a library object, made by its copy constructor or copy assignment, has in every data member the value of the original (or a copy or clone of what the original's member designates), base class members included: "
            "identifiers, names, directions, tensors, magnitudes, domains, targets, grids, element nodes, layers and models. clone() of an object of a concrete class creates an object of that very class from it, and cloning a group clones each of its elements. "
            "The elements of a copied mesh are re-anchored to the copy's own coordinates and layers after they have been copied.",
  over=["inputs"], forall="all objects of all classes with copy operations or clone(), whatever their state",
  why="Tests copy a handful of elements and compare one or two getters; a member forgotten in a copy constructor compiles and stays default initialised.",
  files=["src/core", "src/core/class/Cloneable.h", "src/core/group/Cloneable.hpp"],
  mech=[("copy constructors and assignments", "src/core/**"), ("clone definitions", "SEMBA_CLASS_DEFINE_CLONE, src/core/class/Cloneable.h")],
  technique="member completeness by value-flow dataflow over the clang AST: final state of every field of the complete object compared with the same field of the original; override resolution over the class hierarchy for clone()",
  note="Self assignment is assumed not to happen; contents of hand-managed buffers copied in loops (dynamic matrices, polyhedron vertices) are reported undecided.")
P(id="C09", title="Groups keep their elements and their identifier index consistent",
  statement="A group holds exactly the elements it was built from, had added, and not had removed, in that order: construction takes every element of the group's kind, adding appends all of them after the present ones, "
            "removing keeps exactly the elements at other positions, assignment and clear replace all. In an identified group, after any of these operations that completes, an identifier is known exactly when an element carries it "
            "and the lookup by identifier returns that very element, unknown identifiers being refused; elements whose identifier is zero or already used are refused; addId gives each added element an identifier above all present ones. "
            "Selections by class, by exact class, by position and by list of identifiers return exactly the elements that match.",
  over=["inputs", "histories"], forall="all sequences of group operations on all element kinds and identifiers",
  why="Tests add a few elements in increasing identifier order; removals, re-assignments and additions after them, where the index must be rebuilt or continued, are barely touched.",
  files=["src/core/group/Group.hpp", "src/core/group/Identifiable.hpp", "src/core/class/Identification.hpp", "src/core/class/Identifiable.hpp"],
  mech=[("identifier index", "src/core/group/Identifiable.hpp postprocess_"), ("contents", "src/core/group/Group.hpp")],
  observe=["size, get, getId, existId, getOf, getIds"],
  technique=VF + "; loops normalised to filter/map form, loop conditions evaluated by constant propagation for every combination of identifier classes",
  note="Each operation is decided for an arbitrary starting group, so histories follow by induction; state left behind by an operation that throws is not covered, nor Group::set / resize, which bypass the index.")
P(id="C10", title="Grids and boxes compute what their names say",
  statement="A box built from two corners in any order spans them; its point/line/surface/volume kind, direction, normal, length, corners and faces follow from its two corners; containment, strict containment, equality, intersection, hull and scaling are those of intervals on every axis, "
            "and cutting it along a grid or with a step gives exactly the boxes between consecutive cuts. A grid has one more line than cells on every axis; its cells, steps, lines, extent, minimum step, regularity follow from its line positions; "
            "a point is placed in the cell that contains it (or at the nearest line, when asked), with its relative length in the cell and an error exactly when it is outside; line ranges, cell centers, scaling, added steps keep all lines ordered and lose none; "
            "enlarging a bound adds at least the padding with cells of the given size, graded from the size of the cells at that bound, and leaves the other bounds alone.",
  over=["inputs"], forall="all boxes and grids whatever their positions and sizes per axis",
  why="Tests use a few regular grids with coinciding sizes on the three axes, where exchanged axes, bounds and strict versus non strict comparisons do not show.",
  files=["src/core/geometry/Box.h", "src/core/geometry/Box.hpp", "src/core/geometry/Grid.h", "src/core/geometry/Grid.hpp"],
  mech=[("box operations", "src/core/geometry/Box.hpp"), ("grid operations", "src/core/geometry/Grid.hpp")],
  observe=["return values and state of BoxI3, BoxR3, Grid3"],
  technique=VF + "; on objects of unknown contents and bounded shape; the resulting terms compared with the specification by constant propagation in the order types of the operands",
  note="Bounded shapes (up to four lines per axis) and order types sampled by constants; enlargement and construction are decided for constant grids only; the exact number of grading cells is not.")
P(id="C11", title="Vectors, matrices and axes compute what their names say",
  statement="Vector addition, subtraction, scaling, scalar and cross products, norm, normalisation, comparisons, conversions between integer and real vectors, axis, plane and coplanarity queries, permutations and bounds-checked access have their mathematical meaning, integer and real, in two and three dimensions; "
            "comparisons of reals use the documented relative tolerance and are consistent with one another. Matrices of fixed and of variable size add, scale, multiply, transpose, select, compare, sort their rows, remove repeated rows, convolute and build Kronecker products as defined, "
            "and determinants and inverses of invertible matrices are exact up to rounding, whatever pivoting they need. Local axes convert vectors and tensors to global axes by their Euler rotation (and origin), spherical coordinates convert to Cartesian ones and back, "
            "and fractional grid coordinates are compared, reduced and moved consistently with position plus length.",
  over=["inputs"], forall="all vectors, and matrices of small sizes, with any entries, including equal, zero and aligned ones",
  why="Tests check some vector operators on one or two vectors; inversion with pivoting, tensors in rotated axes, row sorting, products of non square matrices and fractional coordinates are not tested.",
  files=["src/core/math/vector", "src/core/math/matrix", "src/core/math/axis", "src/core/math/util/Real.cpp"],
  mech=[("vectors", "src/core/math/vector/**"), ("matrices", "src/core/math/matrix/**"), ("axes", "src/core/math/axis/Local.cpp")],
  observe=["return values and state of CVecR3, CVecI3, CVecR2, MatR33, MatR44, Matrix::Dynamic, Axis::Local, Spherical, CVecI3Fractional"],
  technique=VF + "; on objects of unknown contents; the resulting terms compared with the mathematical definition by constant propagation in generic and degenerate classes of constants",
  note="Matrices of 1 to 4 rows; inversion and row sorting are decided for constant matrices only; rounding error is not quantified; singular matrices are outside.")
P(id="C12", title="Functions, point generators and averages compute their definitions",
  statement="A Gaussian and a band limited signal have their defined value at every time; an interpolated signal is the piecewise linear function through its points, constant beyond the first and last one, refuses to be evaluated without points, "
            "and holds exactly the complete points of its file or list. Polynomials in one or several variables are evaluated, differentiated, scaled, multiplied (also by polynomials of other variables), converted to and from matrices and extended by monomials as algebra says, repeated, zero and missing monomials included, and drop all vanishing monomials when asked to. "
            "Equality of functions holds exactly for functions of the same class with the same parameters. Linear and logarithmic point generators, sums and means have their definition.",
  over=["inputs"], forall="all arguments, parameters and coefficients; tables of 0 to 5 points and polynomials of 0 to 4 monomials in any order",
  why="Tests evaluate a Gaussian and an interpolated table at a few points; polynomials, equality, generators and repeated or vanishing monomials are not tested.",
  files=["src/core/math/function", "src/core/math/util/SpaceGenerator.h", "src/core/math/util"], mech=[("functions", "src/core/math/function/**"), ("generators and averages", "src/core/math/util/**")],
  observe=["operator(), operator==, derive, operator*, operator^ and state of Gaussian, BandLimited, LinearInterpolation and Polynomial; linspace, logspace, sum, mean, meanDifference"],
  technique=VF + "; on objects of unknown parameters; the resulting terms compared with the definition by constant propagation in classes of constants",
  note="Derivatives and products that remove vanishing monomials are decided for constant coefficients; rounding is not quantified; the numerical content of files is read through the stream model.")
P(id="C13", title="Elements answer queries as their geometry defines",
  statement="For nodes, lines, triangles, quadrilaterals, hexahedra and tetrahedra: the numbers of nodes, vertices and faces, and the lists of nodes and vertices of the element and of each of its sides agree with one another; sides of a surface join consecutive vertices and those of a volume close it, every edge shared by two of them; "
            "bounds, lexicographically extreme vertices, normals, areas, volumes, rectangularity, regularity, planes, inner points and membership of a coordinate follow from the positions of the nodes. Two elements are equal exactly when their class, identifiers, nodes, layer and material are. "
            "Elements built from a box or from identifiers take the nodes at the corners of the box, or with those identifiers, with the given layer and material, and refuse boxes of the wrong kind and unknown nodes; a linear version, a copy, and a structured or unstructured version of an element have the corresponding nodes, identifier, layer and material, or report the node that is missing.",
  over=["inputs"], forall="all elements of these classes wherever their nodes lie",
  why="Tests build a handful of axis-parallel elements with increasing coordinates, where exchanged nodes, sides, axes and skipped checks do not show.",
  files=["src/core/geometry/element", "src/core/math/simplex"], mech=[("element queries", "src/core/geometry/element/**"), ("node tables", "src/core/math/simplex/**")],
  observe=["return values and thrown errors of the element classes"],
  technique=VF + "; on elements of unknown nodes, virtual calls resolved by class, reference tables by constant propagation through their constructors; results compared with geometric definitions by constant propagation in classes of positions",
  note="Classes of positions sampled by constants; second order tetrahedra, polylines, polygons, polyhedra and conformal lines are not covered, nor isStructured, nor extreme vertices of elements with more than three vertices.")
P(id="C14", title="Materials answer with the quantities their parameters define",
  statement="Permittivity, permeability, impedance and admittance, and being vacuum, follow from the parameters of a classic material; the poles of a dispersive one are those given to it, plus its conductivity as a pole at zero, and its conductivity, its number of poles and whether it is dispersive or simply conductive follow from them, also without any pole; magnetic conductivity is refused. "
            "The tensors of crystals and ferrites, the axis of an absorbing layer, are the local ones rotated to global axes. Each layer of a multilayer has its own thickness, permittivity, permeability and conductivity; null permittivities and several fitting options are refused. "
            "Wires and lumped multiports hold exactly the given parameters and kind; the extremes of a wire are copies of the given multiports, set one by one and swapped.",
  over=["inputs"], forall="all values of the parameters, null and negative ones included; up to three poles and three layers",
  why="Tests build a few materials and read one or two getters; poles with conductivity, rotated tensors, layers beyond the first and extremes are not tested.",
  files=["src/core/physicalModel"], mech=[("materials", "src/core/physicalModel/volume/**, surface/**"), ("wires and multiports", "src/core/physicalModel/wire/**, multiport/**")],
  observe=["getters, predicates and constructors of the material classes"],
  technique=VF + "; on materials of unknown parameters; the resulting terms compared with the definition by constant propagation in classes of parameters",
  note="Impedance tables with frequency poles (SIBC) and material files are not covered; copies are the subject of C08.")
P(id="C15", title="Sources and ports excite the fields their definition says",
  statement="A plane wave given by two vectors keeps them, one given by angles has the directions these stand for; null vectors and a polarization not perpendicular to the direction are refused, and the angles asked back are those of its vectors. Its electric field is the polarization times the magnitude at that time, its magnetic field the direction times the electric field and the vacuum admittance. "
            "A coaxial port weighs radially with the voltage and azimuthally with the current; given new elements it takes their centre and scales its radii, and refuses ones not in an xy plane. A rectangular waveguide port refuses elements that are not a surface in such a plane, none at all, and mode (0,0); its extension is that of its elements, also when they are replaced, and its weights are the normalized TE or TM mode. "
            "The normal of a port is that of its elements. Types, hardness and parameters of lines, generators and dipoles are those given, and described as such.",
  over=["inputs"], forall="all vectors, angles, modes, radii, positions and elements",
  why="Tests build a plane wave and a waveguide port and check one refusal; no field, weight, angle or replacement of elements is tested.",
  files=["src/core/source"], mech=[("plane waves", "src/core/source/PlaneWave.cpp"), ("ports", "src/core/source/port/*"), ("lines and generators", "src/core/source/{OnLine,Generator,Dipole}.cpp")],
  observe=["constructors, set, fields, weights and getters of the sources"],
  technique=VF + "; on sources of unknown parameters and groups of elements of unknown vertices; the resulting terms compared with the definition by constant propagation in classes of parameters",
  note="Groups of at most two elements; sampled (numerical) magnitudes and the random plane wave's directions are not covered.")

P(id="C16", title="Groups of elements and coordinates, and meshes, answer and change as defined",
  statement="Elements are selected by material, layer, coordinate or box: exactly those that have it, in their order. The bounds of a group are those of all its elements or faces, infinite when it has none, and the closest vertex is the one at least distance. Models, layers and coordinates are set on the elements meant, or renewed by identifier and refused if one is missing. "
            "A group of coordinates finds every position it holds and no other after coordinates are added (a repeated position only when overlaps are allowed), removed, cleared or scaled. "
            "A mesh made of groups, copied or assigned holds its own elements with the same identifiers, coordinates, layers and models, and leaves the original alone; scaling, bounds and reassignment by identifier are those of its content; converting it between structured and unstructured keeps identifiers, layers and models, moves coordinates between cells and positions of the grid, and drops only elements that do not follow the grid.",
  over=["inputs", "histories"], forall="all groups, positions, identifiers and histories of calls",
  why="Tests build a few groups and meshes; selections, renewed pointers, positions after removals and scalings, copies and conversions of meshes with layers are not tested.",
  files=["src/core/geometry/element/Group.hpp", "src/core/geometry/coordinate/Group.hpp", "src/core/geometry/mesh"], mech=[("groups of elements", "src/core/geometry/element/Group.hpp"), ("groups of coordinates", "src/core/geometry/coordinate/Group.hpp"), ("meshes", "src/core/geometry/mesh/*.cpp")],
  observe=["queries and updates of the groups, and constructors, assignments, conversions and scalings of the meshes"],
  technique=VF + "; on groups of elements of unknown vertices and histories of calls; the resulting contents compared with the definition by constant propagation in classes of parameters",
  note="Groups of at most four elements and five coordinates; splitting by layers, vertex indices and linearization are not covered.")

P(id="C17", title="Exporters write the geometry and the problem they are given",
  statement="Exporting a problem to VTK or GiD writes, for every layer and material, for every layer when a VTK problem has no materials, for every source and output request, a set of its name with exactly the cells of its elements: each element of the kinds the format has (nodes, lines, triangles, quadrilaterals, tetrahedra, hexahedra), once, of the right cell type, with its vertices in order at their positions, and nothing else. "
            "GiD files are in the units of the solver's scaling factor, if it has one, and the mesh of the problem is left as it is. A structured problem is written at the positions of its grid, with its grid lines on the faces of the domain and its boundaries, each with the name of its condition. "
            "The files are of their format: every VTK data set has a file of its own that is well formed with consistent counts, offsets and indices, and is listed once; GiD coordinates and elements are numbered once, before they are referred to, in meshes of their kind, opened and ended in order.",
  over=["inputs"], forall="all problems, whatever their elements, layers, materials, sources, output requests and boundaries, and identifiers",
  why="The exporters are run by no test at all.",
  files=["src/exporter/vtk", "src/exporter/gid", "src/core/exporter"], mech=[("VTK", "src/exporter/vtk/Exporter.cpp"), ("GiD", "src/exporter/gid/Exporter.cpp"), ("boundaries and grid", "src/core/exporter/Exporter.cpp")],
  observe=["the files written by the constructor of the VTK exporter, and the calls to the GiD post-process library by that of the GiD exporter"],
  technique=VF + "; on problems with elements, layers, materials, sources, requests and boundaries of known shape; the text streamed to each file and the arguments of the library calls, as they propagate from the problem, are read back as the format defines and compared with it",
  note="Problems of up to eight elements, two layers, three materials and two sets of boundaries; ASCII GiD files; results in time, quadratic elements and the insides of the GiD library are not covered.")
P(id="C18", title="Options of the solver and of the mesher are the settings given",
  statement="Options of the solver and of the mesher, just made, report the defaults. Each setting given under its own key (run, final time, number and size of time steps, CFL, sampling period, restart, resume, flush, additional arguments; mesher, mode, bounds, snapping, slanting, thresholds, lengths, scaling, refinement, subgrid points and export flags), or by its setter, is what its query then reports, and changes no other query; settings given later change only what they mention. "
            "The final time and the number of time steps follow from each other and from the time step, the number of steps prevailing when both are given at once and the last given otherwise. Every one of the six ends of the domain takes the condition named for it (PEC, PMC, PML, Periodic, MUR1, MUR2), the others none. Labels of meshers, modes or conditions other than the documented ones are refused. "
            "The summary and the command line arguments of the solver state the present options, the arguments only those that differ from the defaults.",
  over=["inputs", "histories"], forall="all settings, given at once or one after another",
  why="No test makes options; the keys are sixty independent pieces of code.",
  files=["src/solver", "src/mesher"], mech=[("solver options", "src/solver/Options.cpp"), ("mesher options", "src/mesher/Options.cpp"), ("ends of the domain", "src/core/geometry/BoundTerminations.hpp")],
  observe=["the queries of Solver::Options and Mesher::Options after their constructor, set and setters"],
  technique=VF + "; with each key absent, or present with an unknown value or each of its labels, before and after others; what reaches each query is compared with the value of the key of that name, or its default",
  note="The settings themselves are trusted to return the value of a key (see C07); SMA boundaries have no label.")
P(id="C19", title="Settings keep what they are given under their names",
  statement="Settings (the tree of options of a solver: objects with named members, lists, texts, flags and numbers) are, after any sequence of making, setting, adding, erasing, copying, moving, assigning and merging, exactly the tree the sequence gives: of the kind last given, with the members in the order they were added, each found under its own name and at its position with its own value, erased ones and no others gone, and names that are not there refused. "
            "Flags and numbers are read back as set, integers out of range and flags or numbers that are not there are refused. A copy has the same tree and lives on its own. Merging takes the members of both, those of the right one prevailing, member by member in objects both have; nothing merged with something is that something, an object with something else is the object.",
  over=["histories", "inputs"], forall="all sequences of operations on settings, whatever their names, values and nesting",
  why="The tests set and read a few values; none erases, copies, moves or merges them.",
  files=["src/core/argument/Object.h", "src/core/argument/Object.hpp"], mech=[("the tree", "src/core/argument/Object.h"), ("flags and numbers", "src/core/argument/Object.hpp")],
  observe=["the queries of Argument::Object (Solver::Settings) after each operation"],
  technique=VF + "; on histories of settings of up to three members, three levels and all kinds, with known names and texts; what each query of the tree returns is compared with the tree the history gives",
  note="Reading a number or a flag from its text is left to the standard library and not covered, nor are printing and texts of several values; copying settings into themselves is not covered.")
P(id="C20", title="Constructors leave nothing undefined",
  statement="An object of any class, made by any of its constructors other than the copying ones, has every number, flag, enumeration and pointer among its members (its own, those inherited and those in arrays) given a value, whatever the arguments: nothing a query then returns depends on what was in the memory before. "
            "Elements made without vertices have none, and no pointer is left to point anywhere.",
  over=["inputs"], forall="all classes there can be objects of, all their constructors and all arguments",
  why="Fresh memory of a test is mostly zero, which hides a member without a value.",
  files=["src/core"], mech=[("elements", "src/core/geometry/element"), ("output requests", "src/core/outputRequest"), ("sources", "src/core/source"), ("materials", "src/core/physicalModel")],
  observe=["the value of each member after each constructor"],
  technique="definite-assignment dataflow, across calls: " + VF + "; a member whose value after a constructor is still the location itself, or is so on one side of a condition on the arguments, was not given one",
  note="Objects made by copying are in C08; vectors of one or two components made from three, which only asserts, classes that are texts (file names, the exporter to GiD) are not covered, nor are aggregates without constructors; a member given a value under more than one condition is left undecided when no value is certain.")
