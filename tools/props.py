prop("C01", "One subdivision rule everywhere",
 "For a given resolution and method, every generator (surfaces between two lines, parametric quadrilaterals, volumes, stack layers, extrusions) places its intermediate nodes at the same relative positions: uniform for 'constant', log10-spaced from 1 to 10 for 'log_r', its mirror image for 'log', and the sorted list itself when positions are given. Integer resolutions always include both ends, a missing or non-positive integer means one subdivision, and an unknown method or a malformed list is refused.",
 ["inputs", "configurations"], "every integer resolution, method, explicit list of positions and pair of end shapes",
 "tests sample a few resolutions and compare aggregate sums; the rule is quantified over all resolutions, orders of explicit positions and shapes",
 [H, GO, B, EX], [("resolution_to_perc", H)], ["points of the generated meshes"])
prop("C02", "Surface between two lines: nodes, data and visibility",
 "The structured surface between two lines holds exactly the linear interpolation of corresponding nodes, arranged along the requested plane, and carries the line's point and cell data to the matching nodes and cells, in whatever order the line stores them. A cell is hidden exactly when the two lines coincide over it (or it has no area), never because of where it lies. Lines of different sizes and unknown planes are refused.",
 ["inputs", "configurations"], "every pair of polylines, plane, resolution and attached data",
 "tests check a handful of concrete lines with summed coordinates; wrong node order, shifted data or hidden thin cells are invisible to them",
 [H], [("generate_surface_from_two_lines", H)], ["points, cell data and vtkGhostType of pvgridder.StructuredSurface"])
prop("C03", "Volume between two structured surfaces",
 "The volume between two structured surfaces has the interpolated nodes at each grid position along the axis where the surfaces have one node, keeps the base surface's point and cell data (scalars and vectors) along that axis, and hides exactly the cells where both surfaces coincide (or that have no volume). Inhomogeneous or non-2D inputs are refused.",
 ["inputs", "configurations"], "every pair of structured surfaces normal to any axis, any resolution and data",
 "tests use a few grids normal to z with aggregate checks",
 [H], [("generate_volume_from_two_surfaces", H), ("repeat_structured_data", H)], ["pvgridder.Volume"])
prop("C04", "Volume between two unstructured surfaces",
 "Every triangle, quad, pixel and polygon of the base surface becomes one wedge, hexahedron or polyhedron per subdivision joining the cell to its copy above, in base-cell order, with interpolated nodes and the base cell and point data repeated per layer. A prism is hidden exactly when the surfaces meet at all its nodes or its base cell is hidden, wherever it lies in space; unsupported or inhomogeneous surfaces are refused.",
 ["inputs", "configurations"], "every mixed surface, elevation field and resolution",
 "tests use a couple of meshes at the origin and never look at connectivity per cell",
 [H], [("generate_volume_from_two_surfaces", H)], ["pvgridder.Volume"])
prop("C05", "Extruded polyhedra are closed and outward-oriented",
 "Every polyhedron extruded from a polygon has faces that form a closed, consistently oriented surface whose normals point outwards. This holds whatever the winding, shape or starting node of the polygon, the direction of the extrusion, and even if the layer pinches out at one of the nodes.",
 ["inputs"], "every polygon winding, starting node, shape, thickness field and extrusion direction",
 "tests extrude one Voronoi mesh upwards",
 [H], [("faces reversal in generate_volume_from_two_surfaces", H)], ["faces of the polyhedral cells"])
prop("C06", "Elevations of stack items",
 "A number sets the elevation of the first stack item and afterwards the (absolute) thickness on top of the previous item in the stacking direction; a function sets the elevation from the coordinates of the base mesh; a data set or point array sets it by linear interpolation whatever the order of its points; a plane passes through its point and is tilted about the given axis. Data that do not enclose every base node are refused unless nearest extrapolation is requested, and the other coordinates never change.",
 ["inputs", "configurations"], "every elevation, base mesh, stacking axis and direction, and data order",
 "tests use one axis, one direction and sorted data",
 [B, ST], [("MeshStackBase.add", B), ("MeshStackBase._interpolate", B), ("MeshStack3D.add_plane", ST)], ["items of the stack", "generate_mesh"])
prop("C07", "Intersecting stack items are cut by priority",
 "Consecutive stack items are compared node by node in stacking order: where the gap is smaller than the minimum thickness of the later item, the item with the lower priority (the earlier one when equal) is moved to leave exactly that thickness, and every other elevation is untouched. It works in both stacking directions and along any axis, and a layer eroded at all nodes of a cell is hidden there.",
 ["inputs", "configurations"], "every elevation field, priority, thickness, direction and axis",
 "tests never stack intersecting items top-down or with thickness per node",
 [B], [("MeshStackBase._generate_mesh", B)], ["points of the generated stack"])
prop("C08", "Layer, column and item numbers",
 "Every cell of a stacked or extruded mesh carries the number of its layer (counted along the stacking or extrusion direction), of the column it belongs to (the base cell it was raised from) and of the item that created it, for any base (line, structured or unstructured surface), axis and direction. Each layer and column pair names exactly one cell, which lies between the levels of its layer above its base cell.",
 ["inputs", "configurations"], "every base mesh, axis, direction, number of items and subdivisions",
 "tests look at counts and sums of these arrays for a few stacks along z",
 [B, ST, EX, H], [("MeshStackBase.generate_mesh", B), ("MeshExtrude.generate_mesh", EX)], ["LayerId, ColumnId and StackItem/ExtrudeItem cell data"])
prop("C09", "Group assignment of stacks and extrusions",
 "Each cell of a stack or extrusion gets the group of the last entry of its item's group mapping that selects its base cell (by mask, indices, predicate, group name or list of names, possibly inverted with a leading '~'), otherwise its base group unless that group is ignored, otherwise the default group. Group numbers of the output are distinct, every label is used by some cell, and names keep denoting the same cells whatever numbers the base mesh uses.",
 ["inputs", "configurations"], "every base group numbering, mask, predicate, name list, ignored and default group",
 "tests use one or two fixed group layouts",
 [B, ST, EX], [("MeshItem groups", B), ("_get_groups", B)], ["CellGroup cell data and its labels in user_dict"])
prop("C10", "Merging a sequence of meshes",
 "Merging meshes yields every cell of every item exactly once, at its place, with its own cell data, nodes shared by touching items being merged. Each cell stays in the group of the same name it had in its item (unless ignored); a cell without one gets the group given for its item or else the default group, labels being distinct and used. Merging nothing is refused.",
 ["inputs", "configurations"], "every sequence of items, geometry, group numbering and ignored groups",
 "tests merge a few fixed meshes and compare aggregates",
 [MG, B], [("MeshMerge.generate_mesh", MG)], ["pvgridder.MeshMerge"])
prop("C11", "Remapping categorical data keeps meaning",
 "Remapping categorical cell or point data one-to-one changes exactly the mapped values (by name or by number, swaps and shifts included, simultaneously) and leaves the others untouched. Afterwards every label still denotes the same cells as before, labels no longer used are dropped, and the input is modified only in place on request. A mapping that names an unknown label, and data that are not integers, are refused.",
 ["inputs", "configurations"], "every data array, label table and mapping",
 "tests use one mapping; swaps, chains and partially labelled data are not reached",
 [MI, PR], [("remap_categorical_data", MI), ("get_cell_group", PR)], ["pvgridder.remap_categorical_data, get_cell_group"])
prop("C12", "Merging structured grids along an axis",
 "Structured grids whose facing sides coincide are merged along the requested axis into one structured grid that holds every node and cell of both at its place, the shared side once, with the cell data (scalars and vectors) both have in common. Grids whose sides do not match, or an unspecified axis, are refused.",
 ["inputs", "configurations"], "every pair of matching grids, axis, 2D or 3D, and cell data",
 "tests merge one pair of regular grids",
 [MI], [("merge", MI)], ["pvgridder.merge of structured grids"])
prop("C13", "Splitting and merging lines",
 "Splitting polygonal data into lines gives one mesh per line cell, with its nodes in order and its own point and cell data, either as a polyline or as segments. Merging lines keeps every line at its place with its data, merges coincident nodes and keeps only the data that all inputs have.",
 ["inputs", "configurations"], "every set of lines and polylines, sharing nodes or not, and attached data",
 "tests use one or two regular lines without data",
 [MI], [("split_lines", MI), ("merge_lines", MI)], ["pvgridder.split_lines, merge_lines"])
prop("C14", "Averaging close points",
 "Averaging merges every chain of points closer than the tolerance into a single point at the mean position of its members, and leaves the other points where they are, whatever the numbering. Faces go through the merged points in their order; those reduced to fewer than three distinct points are removed, unused points are dropped and the input is kept.",
 ["inputs", "schedules"], "every set of points, tolerance, numbering and order in which close pairs are found",
 "tests average one set of points",
 [MI], [("average_points", MI)], ["pvgridder.average_points"])
prop("C15", "Reconstructing a line from points",
 "Reconstructing a line returns all the points, each exactly once, joined into one line from the requested starting point, closed on request, and cannot be shortened by reversing any part of it. It ends for any points, coincident ones included, and refuses arrays that are not 2D or 3D points.",
 ["inputs", "configurations"], "every set of points, starting point, open or closed",
 "tests reconstruct one regular line",
 [MI], [("reconstruct_line", MI)], ["pvgridder.reconstruct_line"])
prop("C16", "Decimating lines within a tolerance",
 "Decimating a line keeps its two ends and a subsequence of its nodes such that every dropped node lies within the tolerance of the segment that replaces it. Nothing more is kept than the split at the farthest node requires, and several lines are decimated independently, the input being kept.",
 ["inputs"], "every polyline, tolerance and number of lines",
 "tests decimate one line",
 [MI], [("decimate_rdp", MI)], ["pvgridder.decimate_rdp"])
prop("C17", "Facets of the cells of a mesh",
 "The cell geometry of a mesh lists each distinct facet (edge in 2D, face in 3D) exactly once, with its nodes, and names exactly the cells that hold it, padded with -1. Hidden and empty cells are left out on request, and the input is kept.",
 ["inputs", "configurations"], "every mesh of any mix of cell types, hidden cells and facets shared by any number of cells",
 "tests count facets for a few example meshes",
 [MI], [("extract_cell_geometry", MI)], ["pvgridder.extract_cell_geometry"])
prop("C18", "Neighbours of cells",
 "Two cells are neighbours exactly when they share a facet: the relation is symmetric, no cell is its own neighbour and hidden cells are left out on request. The connectivity lines join the centres (given or computed) of each pair of neighbours once per shared facet, with one node per cell.",
 ["inputs", "configurations"], "every mesh of any mix of cell types, hidden cells and facets shared by any number of cells",
 "tests sum neighbour counts for a few example meshes",
 [PR, CO, MI], [("get_neighborhood", PR), ("get_connectivity", PR)], ["pvgridder.get_neighborhood, get_connectivity"])
prop("C19", "Extracting cells keeps data and hidden cells",
 "Extracting cells by mask, indices or dimension returns exactly the requested cells in ascending order with their type, nodes, point and cell data, original numbers and hidden flags, hidden cells included. The input mesh keeps its cells, data and hidden flags.",
 ["inputs", "configurations"], "every mesh, subset of cells, hidden flags and dimension",
 "tests extract one subset without hidden cells",
 [MI], [("extract_cells", MI), ("extract_cells_by_dimension", MI)], ["pvgridder.extract_cells, extract_cells_by_dimension"])
prop("C20", "Connectivity and dimension of meshes",
 "The cell connectivity of a mesh lists the nodes of each cell in order (and the faces of polyhedra), flattened it rebuilds the same cells, and it holds for every kind of data set. The dimension of a mesh is the largest dimension of its cells, whatever their type and order.",
 ["inputs", "configurations"], "every mesh and cell type",
 "tests use the example meshes only",
 [PR, CO], [("get_cell_connectivity", PR), ("get_dimension", PR)], ["pvgridder.get_cell_connectivity, get_dimension"])
prop("C21", "Cell centres",
 "There is exactly one centre per cell, hidden and empty cells included, in cell order: the mean of the nodes for simple cells and, for polyhedra, the mean of the nodes, the centroid of the volume or the centre of the bounding box as requested. Computing them leaves the mesh and its hidden flags as they were.",
 ["inputs", "configurations"], "every mesh with hidden or empty cells in any position and each centre method",
 "tests compare sums for meshes without empty cells",
 [PR], [("get_cell_centers", PR)], ["pvgridder.get_cell_centers"])
prop("C22", "Fusing cells",
 "Fusing a group of connected 2D cells replaces them by a single polygon bounded by the outline of their union, in place of the first cell of the group and with its data and orientation, all other cells keeping their nodes, data and order; no unused node is left. Several groups may be fused at once, by indices or masks, and groups that are not connected, enclose a hole or are not 2D are refused.",
 ["inputs", "configurations"], "every mesh, group of cells, order and plane",
 "tests fuse one group of one mesh",
 [MI], [("fuse_cells", MI)], ["pvgridder.fuse_cells"])
prop("C23", "Quadratic cells",
 "Making a mesh quadratic replaces every linear cell by its quadratic counterpart, with the original nodes first and then one node at the middle of each edge in VTK order. Original points keep their positions and order, and cell types other than triangles and quadrilaterals are refused.",
 ["inputs", "configurations"], "every mesh of supported cells and node positions",
 "tests sum the points of two example meshes",
 [MI], [("quadraticize", MI)], ["pvgridder.quadraticize"])
prop("C24", "Offsetting polygons",
 "Offsetting a polygon moves each edge outwards (inwards if negative) by the distance along the normal of the edge, whatever the orientation, start and location of the polygon: each new node lies at the distance from both lines of its edges, in the same order and in the plane of the polygon. The input is kept.",
 ["inputs", "configurations"], "every simple polygon, orientation, position, plane and distance",
 "tests offset one polygon near the origin",
 [MI], [("offset_polygon", MI)], ["pvgridder.offset_polygon"])
prop("C25", "Parametric shapes lie where requested",
 "Sectors, circles, annuli, cylindrical shells, quadrilaterals, rectangles and the transitions between rectangles and arcs have their nodes exactly at the positions given by the radii, sides, angles, centre, resolutions and methods, and conforming cells. Radii that do not fit (outer below inner, negative, arc inside the rectangle) are refused.",
 ["inputs", "configurations"], "every radius, side, angle, centre, resolution and method",
 "tests compare sums of coordinates and areas for one set of arguments per shape",
 [GO, H], [("AnnularSector, Sector, Circle", GO), ("CylindricalShellSector", GO), ("Quadrilateral, Rectangle, Square", GO), ("RectangleSector, SectorRectangle", GO), ("resolution_to_perc, translate", H)], ["pvgridder.AnnularSector, Annulus, Sector, Circle, CylindricalShell, CylindricalShellSector, Quadrilateral, Rectangle, Square, RectangleSector, SectorRectangle, SquareSector, SectorSquare"])
prop("C26", "Regular and curved lines",
 "A regular line has the requested number of segments and its nodes at equal distances along the given polyline, from its first to its last point, segments of zero length included. A curved line starts at the origin and has segments of equal length (summing to the requested length) whose direction turns at a constant rate from the first to the last direction; inputs are kept.",
 ["inputs", "configurations"], "every polyline, number of segments, origin, length and pair of directions that are not opposite",
 "tests build one line of each kind",
 [GO], [("RegularLine", GO), ("CurvedLine", GO)], ["pvgridder.RegularLine, CurvedLine"])
prop("C27", "Extruding along vectors with scale and rotation",
 "Each extrusion step moves the previous section by the vector, scales it about the centre of its bounding box and rotates it about the vector through that centre, with the scale and angle of the step or else the default ones. The generated mesh holds one cell per cell of the base and layer between these sections, and surfaces that are not 2D or vectors that are not 3D are refused.",
 ["inputs", "configurations"], "every surface, sequence of vectors, scales, angles and resolutions",
 "tests extrude one mesh along z and compare sums",
 [EX, H], [("MeshExtrude.add, generate_mesh", EX), ("generate_volume_from_two_surfaces", H)], ["pvgridder.MeshExtrude"])
prop("C28", "Voronoi generators, groups and orientation",
 "A Voronoi mesh has exactly one cell per kept generator, tagged with its coordinates and its group. Items outside the background are ignored; a point enclosed in a cell of an item of higher absolute priority (or equal and added later, unless that priority is negative) is discarded, whatever the order of addition. All cells have the requested orientation wherever the mesh lies.",
 ["inputs", "configurations", "histories"], "every background, sequence of items with any position, priority and group, axis, and orientation",
 "tests generate one mesh near the origin and compare sums",
 [VO, B], [("VoronoiMesh2D.add, generate_mesh", VO), ("_compute_signed_area", VO), ("_initialize_group_array", B)], ["pvgridder.VoronoiMesh2D"])
prop("C29", "Inputs are kept and generation is repeatable",
 "Building a mesh with a stack, extrusion, merge or Voronoi generator, or calling any utility, leaves every mesh, array and mapping passed in exactly as it was, and meshes returned before stay as they were. Generating again, or having generated before the last items were added, gives the same mesh as generating once from a fresh builder.",
 ["inputs", "configurations", "histories"], "every sequence of additions and generations and every input mesh",
 "tests generate each mesh once and do not look at the inputs afterwards",
 [B, EX, ST, MG, VO, MI], [("MeshStackBase.add, _generate_mesh", B), ("MeshExtrude.generate_mesh", EX), ("MeshMerge.generate_mesh", MG), ("VoronoiMesh2D.add", VO), ("extract_cells", MI)], ["pvgridder builders and utilities"])
prop("C30", "Names of cell groups",
 "Asking for the group of the cells of a mesh gives, for every cell, the name listed for its number in the mesh (whatever the numbers, the order of the names, unused names and the kind of mesh), under the requested array name. Without names the numbers themselves are given, and nothing if the mesh has no such array; the mesh is kept.",
 ["inputs", "configurations"], "every assignment of numbers to cells and of names to numbers",
 "tests look up one generated mesh",
 [PR], [("get_cell_group", PR)], ["pvgridder.get_cell_group"])
prop("C31", "Boundary polygons of surfaces",
 "The boundary polygons of a surface are exactly the closed loops of the edges held by one of its cells, one polygon per loop through the nodes of the mesh in order, for surfaces of any shape, plane, number of parts and holes; a closed surface has none. When holes are requested, each loop around a region is given with the loops of the holes directly within it, islands in holes being polygons of their own. The input is kept.",
 ["inputs", "configurations"], "every planar arrangement of cells, orientation of the plane, position, size and order of the edges",
 "tests extract one polygon near the origin",
 [MI], [("extract_boundary_polygons", MI)], ["pvgridder.extract_boundary_polygons"])
prop("C32", "Circles, polylines and fused cells of Voronoi meshes",
 "Adding a circle to a Voronoi mesh adds one cell per subdivision at equal angles between the circle and its constraint ring (radii that do not fit are refused), in the plane of the mesh whatever its axis, and cells marked for fusing become a single one. Adding polylines adds along each one a band of cells of the requested width on both sides, with padding and constraint cells at the ends and with its group and priority.",
 ["inputs", "configurations"], "every circle and polyline, resolution, width, padding, number of constraint points, axis and kind of input",
 "tests add one circle and one polyline in the plane z = 0 and compare sums",
 [VO, MI, GO], [("VoronoiMesh2D.add_circle, add_polyline, generate_mesh", VO), ("fuse_cells", MI), ("AnnularSector", GO)], ["pvgridder.VoronoiMesh2D items and generated mesh"])
prop("C33", "Voronoi cells hold the points closest to their generator",
 "Each cell of a Voronoi mesh is the part of the background that is closest to its generator. In particular the cells whose region reaches infinity are closed beyond the limits of the background on the right side, whatever the position, size and plane of the mesh, so that cells are convex, hold their generator and leave no part of the background uncovered.",
 ["inputs", "configurations"], "every arrangement of generators within the stated layouts, position, scale and axis",
 "tests compare the sum of the areas for one random set of points near the origin",
 [VO], [("VoronoiMesh2D.generate_mesh, _generate_voronoi_tesselation", VO)], ["cells of pvgridder.VoronoiMesh2D"])
prop("C34", "Polygons with holes are bounded by their loops",
 "A polygon is one cell through the given shell, or, with holes or when triangles or quads are requested, a conforming mesh of such cells bounded exactly by the shell and the holes, whether they are given as open or closed 2D or 3D points, lines or surfaces. Unknown cell types and engines and single cells with holes are refused, and a failure of the mesher at any step leaves it closed so that the next polygon is generated as usual.",
 ["inputs", "configurations", "crash_points"], "every shell and holes, form of input, cell type, engine and step at which the mesher fails",
 "tests generate two polygons and compare areas; none injects a failure",
 [GO, MI], [("Polygon", GO), ("split_lines, extract_boundary_polygons", MI)], ["pvgridder.Polygon"])
prop("C35", "Transitions between resolutions in 2D stacks",
 "A transition in a 2D stack is one layer of triangles (numbered as one layer, without columns, with the item and group of the addition) that is bounded exactly by the line below and by the new line. The following items are built on the new line until the next transition, a thickness being added to the elevation of the line below; layers share the nodes of their common line along any axis and in both directions.",
 ["inputs", "configurations", "histories"], "every sequence of items and transitions, elevation, line, axis and direction",
 "no test uses transitions",
 [ST, B, GO], [("MeshStack2D.set_transition, _transition", ST), ("MeshStackBase.add, _generate_mesh", B), ("Polygon", GO)], ["pvgridder.MeshStack2D"])
prop("C36", "Rays and lines cut by a mesh",
 "A ray cast through a mesh returns exactly the facets that it crosses (the edges of a 2D mesh, the faces of a 3D mesh, the own cells of a surface mesh; up to the angle asked for), each with the crossing point, on the ray and on the facet, and the cells holding it; None if it crosses nothing, and an error for a surface with both faces and lines. A straight line cut by a 3D mesh, however it is subdivided, gives the pieces between consecutive facets in order, each with the cell that holds it, -1 out of the mesh (left out on request before the entry or after the exit), its length, and the segment and data of the line it comes from. Inputs are left as they were.",
 ["inputs", "configurations"], "every mesh, ray and line",
 "tests cast a few rays and count the pieces of one line",
 [MI, CO], [("ray_cast, intersect_polyline, split_lines, extract_cells", MI), ("get_cell_centers", "pvgridder/utils/_properties.py"), ("extract_cell_geometry", MI)], ["pvgridder.intersect_polyline, ray_cast"])
prop("N01", "Lines in the plane of a surface mesh, bends and grazing contacts",
 "A line lying in the plane of a 2D mesh, or running along facets, edges and nodes, is cut where it crosses facets.",
 ["inputs"], "every mesh and line",
 "tests intersect one line",
 [MI], [("intersect_polyline", MI)], ["pvgridder.intersect_polyline"],
 na="which coplanar or touching cells are found is decided by tolerances inside VTK's compiled locators (vtkStaticCellLocator), whose answers for such contacts follow no rule that could be encoded; transversal crossings are C36")
prop("C37", "Interactive selections",
 "Whatever the history of picks, an interactive selection returns the cells (or points) picked an odd number of times, which are the ones highlighted when the window is closed. A lasso returns, in order, exactly the cells whose centres (or the points that) lie inside the polygon of the clicks as seen in the view, whatever the view, the depth and the direction of the clicks, and on request that polygon; what is drawn goes through the clicks. The view, projection and options asked for are the ones used, and an unknown view is refused.",
 ["inputs", "histories", "configurations"], "every history of picks and clicks, view, mesh and option",
 "tests only open an off-screen plotter without any event",
 ["pvgridder/utils/_interactive.py"], [("interactive_selection, interactive_lasso_selection", "pvgridder/utils/_interactive.py")], ["pvgridder.interactive_selection, interactive_lasso_selection"])
prop("C38", "Merging tolerance of generated meshes",
 "When an unstructured mesh is generated by merging, stacking or extruding, nodes that coincide or lie within the merging tolerance of one another (1e-8 unless given) become one node, and nodes further apart than the tolerance times the diagonal of the mesh stay distinct, however small the gap or the layer between them. No cell is lost, and no node moves by more than its distance to the node it is merged with.",
 ["inputs", "configurations"], "every gap between neighbouring cells, thickness of layers, tolerance and generator",
 "tests only generate meshes whose nodes coincide or lie far apart, with the default tolerance",
 [B, ST, EX, MG], [("MeshBase._clean, MeshStackBase._generate_mesh", B), ("MeshStack3D.generate_mesh", ST), ("MeshExtrude.generate_mesh", EX), ("MeshMerge.generate_mesh", MG)], ["generate_mesh of pvgridder.MeshStack3D, MeshExtrude, MeshMerge"])
prop("N02", "What is picked under the mouse",
 "The cell, point or position handed over for a mouse event is the one displayed under the cursor.",
 ["inputs", "schedules"], "every sequence of mouse and keyboard events",
 "tests only open the plotter off-screen",
 ["pvgridder/utils/_interactive.py"], [("calls to enable_element_picking, track_click_position", "pvgridder/utils/_interactive.py")], ["pvgridder.interactive_selection, interactive_lasso_selection"],
 na="picking goes through the VTK render window and its interactor (compiled code and an event loop); there is no encodable function of the inputs; what the package does with the events is C37")
prop("N03", "Exactness of Delaunay, Voronoi and clipping primitives",
 "The triangulation, the Voronoi diagram and the clipping by the background are geometrically exact for any set of points, degenerate ones included.",
 ["inputs"], "every set of points",
 "tests use random points",
 [VO, B], [("scipy.spatial.Voronoi, LinearNDInterpolator, shapely intersection", VO)], ["pvgridder.VoronoiMesh2D"],
 na="implemented by qhull and GEOS, compiled code that is not part of this repository; C06, C28, C31 and C33 assume it and check what the repository does with its results")
