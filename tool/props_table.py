NOTE = ('Decides the rule on every path of the functions named in the evidence, from the resolved syntax trees of the current source; '
        'assumes the C++ standard library and MPI behave as documented and trusts the symbolic evaluator in jv/. ')
P = []


def prop(**k): P.append(k)


prop(id='C01', title='Mesh factory options are kept, reset and carried by the mesh created',
     statement='An option set on a mesh factory (framework, partitioner, geometry type, tile and ghost layer counts, boundary ghosts, included and '
               'excluded kinds, geometric model) reads back as set and leaves the other options alone; resetting restores every option to its initial value. '
               'A mesh the factory creates has the extents it was asked for and carries exactly these options: requested kinds are present and none '
               'is when none is requested, and partitioner, counts, geometry type (1D) and geometric model are those of the factory.',
     over=['configurations', 'histories'], forall='every combination of factory options, in every order of setting and resetting them, for 1D and 3D meshes',
     why='Tests create a handful of meshes with mostly default options and never compare the options of the mesh with those of the factory; resetting is not tested.',
     files=['src/mesh/mesh_factory/MeshFactory.hh', 'src/mesh/mesh_factory/MeshFactory.cc', 'src/mesh/mesh_simple/Mesh_simple.cc', 'src/mesh/Mesh.hh'],
     mech=[('option setters and getters', 'MeshFactory.hh'), ('reset_options', 'MeshFactory.cc'), ('create', 'MeshFactory.cc'), ('constructors', 'Mesh_simple.cc, Mesh.hh')],
     technique='symbolic evaluation of setters, reset and creation paths over the resolved syntax tree (setter/getter agreement, value flow of options into constructors)',
     note=NOTE + 'The framework that is not compiled here (MSTK) is not covered.')

prop(id='C03', title='Counts equal list lengths; "all" lists are owned then ghost together',
     statement='For every kind of entity and every ownership type, the count a mesh, tile or set reports is the length of the list of ids it returns for that kind and type. '
               'The list of all entities consists of exactly the owned, ghost and boundary ghost entities, each once, and each entity is listed under the type its cell has.',
     over=['inputs', 'configurations'], forall='every kind and type, every mesh, tile and set, with or without ghost and boundary ghost entities',
     why='Tests count nodes, faces and cells of small meshes without ghosts; sides, wedges, corners, tiles, sets and boundary ghosts are never counted.',
     files=['src/mesh/Mesh.hh', 'src/mesh/Mesh.cc', 'src/mesh/MeshTile.hh', 'src/mesh/MeshTile.cc', 'src/mesh/MeshSet.hh', 'src/mesh/mesh_simple/Mesh_simple.cc'],
     mech=[('num_entities, num_<kind>s, <kind>s', 'Mesh.hh, MeshTile.hh'), ('functions filling the id lists', 'Mesh.cc cache_*_info, Mesh_simple.cc, MeshTile.cc constructor, MeshSet.cc')],
     technique='symbolic summaries of counting queries and list-filling functions compared case by case',
     note=NOTE)

prop(id='C04', title='Kinds, types and frameworks print under their own names',
     statement='Turning an entity kind, entity type, cell type or partitioner type into text, by function or by stream output, gives that enumerator\'s own qualified name for every enumerator, '
               'and empty text for any other value, without reading outside the table of names. Every mesh framework has a name of its own.',
     over=['inputs'], forall='every enumerator of every named enumeration and the values next to the range',
     why='No test prints any of these values.',
     files=['src/mesh/MeshDefs.hh', 'src/mesh/mesh_factory/MeshFactory.cc'],
     mech=[('*_string functions and stream operators', 'MeshDefs.hh'), ('framework_name', 'MeshFactory.cc')],
     technique='exhaustive constant evaluation of the naming functions over the enumerators',
     note=NOTE)

prop(id='C10', title='Asking for a mesh gives a mesh or an error on every rank, never nothing',
     statement='A request to the mesh factory returns a mesh or reports an error; it never returns an empty pointer, and in parallel it fails on all ranks or on none. '
               'Requests with non-positive cell counts or extents, with fewer than two nodes, or with a geometric model of another dimension, or on more ranks than the framework can use, are refused, and a valid one '
               'is refused only if building the mesh fails. The capability queries say that a framework is available or generates, reads or extracts meshes exactly if it does in this build.',
     over=['inputs', 'configurations', 'schedules'], forall='every request, framework and communicator size, and every outcome on the other ranks',
     why='Tests try a few invalid requests on the frameworks they assume present; nothing enumerates the paths through creation or the agreement between ranks.',
     files=['src/mesh/mesh_factory/MeshFactory.cc', 'src/mesh/mesh_simple/Mesh_simple.cc'],
     mech=[('create', 'MeshFactory.cc'), ('framework_available, framework_generates, framework_reads, framework_extracts', 'MeshFactory.cc')],
     technique='symbolic path conditions of the creation functions (returns, reports, reductions) decided with decision diagrams',
     note=NOTE + 'The framework that is not compiled here (MSTK) is not covered.')

prop(id='C11', title='Failures raise or abort as chosen for the whole program, with their message',
     statement='Whether a failure is raised or ends the program is chosen once for the whole program: whatever was last selected is what the query reports and what every reporting site in every source file '
               'obeys, and raising is the initial choice. A reported failure throws exactly the object reported, or aborts, and never carries on. A message starts with the text given and grows by exactly what is '
               'added, in order.',
     over=['programs', 'histories'], forall='every source file reporting failures, every sequence of selections and every message',
     why='The tests select and query in one source file, so they cannot see that another file has its own copy of the choice.',
     files=['src/error_handling/exceptions.hh', 'src/error_handling/exceptions.cc', 'src/error_handling/errors.hh', 'src/error_handling/errors.cc'],
     mech=[('set_exception_behavior*, exception_behavior', 'exceptions.cc'), ('Jali_throw', 'exceptions.hh'), ('Message', 'errors.hh, errors.cc')],
     technique='linkage analysis of the shared state and symbolic summaries of the reporting functions and every instantiation',
     note=NOTE)

prop(id='C05', title='Copies and assignments carry every field',
     statement='Copying or assigning a point, a region of any type, a domain, a geometric model, a mesh, a tile, a mesh set or a state vector gives an object that has the source\'s value in every '
               'field that its class and its bases declare (a copied state vector has a block of its own with the same contents, an assigned one shares the block), and leaves the source unchanged.',
     over=['inputs'], forall='every user-written copy or move constructor and assignment and every state of the source (points in dimension 1, 2 and 3)',
     why='A field that a copy forgets shows only when that field is used on a copy; tests hardly copy these objects.',
     files=['src/geometry/Point.hh', 'src/geometry/Region.hh', 'src/geometry/BoxRegion.cc', 'src/geometry/GeometricModel.cc', 'src/geometry/Domain.cc', 'src/mesh/MeshTile.hh',
            'src/statemanager/JaliStateVector.h'],
     mech=[('copy constructors and assignment operators', 'the classes of src/geometry, src/mesh and src/statemanager')],
     technique='field-by-field symbolic evaluation of every user-written copy and assignment', note=NOTE)

prop(id='C16', title='The state manager finds what was added, under its name, kind and domain',
     statement='Adding a state vector registers one new vector with the name, domain, kind, type and data given, under its name and, for iteration by kind, under its kind; adding one that is there already changes '
               'nothing and gives the one there. A lookup finds the first registered vector that has the name, the domain, the class and, unless any will do, the kind and type asked for, and otherwise finds nothing. '
               'Retrieving a vector says whether it was found, gives exactly the one found and leaves the output alone when there is none.',
     over=['histories', 'inputs'], forall='every sequence of additions and lookups, every vector class (single or multi valued, on meshes, tiles and sets) and every argument',
     why='Tests add a few vectors and look up those; they do not look up what differs in one respect, iterate by kind after each way of adding, or add duplicates on other domains.',
     files=['src/statemanager/JaliState.h'],
     mech=[('find, get, add', 'JaliState.h'), ('begin, end, entity_begin, names_entity_begin, operator[]', 'JaliState.h')],
     state=[('state_vectors_, names_, entity_indexes_', 'the vectors, their names, and the positions of the vectors of each kind')],
     technique='symbolic evaluation of every instantiation of find, get and add against the lookup rule, over all pairs of registered classes', note=NOTE)

prop(id='C24', title='A state vector holds a value per entity, or per material and cell',
     statement='A state vector built for a kind and type of entity has exactly one value for each such entity of its domain, with the values given, and its name, kind, type, domain and mesh are those it was '
               'built with. A multi-material vector has a row for each material with one value for each cell of the material in the order of its cell set, filled from rectangular data in either layout; reading a '
               'cell without the material gives zero and asking for its place fails. Every accessor, iterator and resizing operation works on that one block of data, and all of them can be used on every kind of domain; writing a vector or the state writes all of it in order.',
     over=['inputs', 'histories'], forall='every member of the vector templates on meshes, tiles and sets, every index, value and data layout, every content of the material sets',
     why='Templates are compiled only where they are used: the tests use a few members on a few domains, with two materials and one layout.',
     files=['src/statemanager/JaliStateVector.h', 'src/statemanager/JaliStateVector.cc', 'src/statemanager/JaliState.h'],
     mech=[('UniStateVector, MultiStateVector', 'JaliStateVector.h'), ('state_get_num_materials, state_get_material_set', 'JaliStateVector.cc')],
     state=[('mydata_', 'the values'), ('material_cellsets_', 'the cell set of each material')],
     technique='compilation of every member over every domain and symbolic evaluation of each against the block of data', note=NOTE)

prop(id='C13', title='A mesh set stays consistent through every change',
     statement='After it is made and after any sequence of additions and removals, a mesh set has exactly the entities it should: its owned and ghost lists contain those of each type, the list of all is the owned '
               'ones followed by the ghost ones, the counts are the lengths of the lists, and the position it gives for an entity is the one in the list of all, or -1 for an entity not in the set, whether or not it '
               'keeps a reverse map. Entities that are neither owned nor ghost are never added, and new ones come after the ones there.',
     over=['histories', 'inputs'], forall='every sequence of additions and removals of single and several entities, every mix of owned, ghost and boundary ghost entities and every numbering',
     why='The serial tests have no ghost entities, and none removes or adds to a set; material data are addressed through these positions.',
     files=['src/mesh/MeshSet.hh', 'src/mesh/MeshSet.cc'],
     mech=[('MeshSet, add_entity, add_entities, rem_entity, rem_entities, clear', 'MeshSet.cc'), ('entities, num_entities, index_in_set', 'MeshSet.hh')],
     state=[('entityids_owned_, entityids_ghost_, entityids_all_', 'the entities by type'), ('mesh2subset_', 'position of each entity')],
     technique='abstract interpretation of constructor, mutators and queries over a finite domain of representative entities of each type',
     note=NOTE + 'Sets of up to four representative entities and changes of up to three are enumerated; the code treats entities alike but for type and number.')

prop(id='C14', title='Set operations on mesh sets give the mathematical result',
     statement='The union, intersection, difference and complement of mesh sets have exactly the owned and ghost entities of the mathematical result, of the same mesh and kind; the result is a set of its own, is registered '
               'with the mesh exactly when it is not temporary, and the operands are unchanged. The mesh finds the set of a given name and kind, counts and lists the sets of a kind, and gives the entities of a set by type.',
     over=['inputs'], forall='every operation on one or more mesh sets with any contents, in any numbering of owned and ghost entities',
     why='The tests combine two sets without ghost entities.',
     files=['src/mesh/MeshSet.cc', 'src/mesh/Mesh.cc'],
     mech=[('merge, intersect, subtract, complement', 'MeshSet.cc'), ('add_set, find_meshset, sets, num_sets, get_set_size, get_set_entities', 'Mesh.cc')],
     state=[('meshsets_', 'the sets of the mesh')],
     technique='abstract interpretation of the operations over a finite domain of representative sets, compared with set algebra',
     note=NOTE + 'One to three operands of up to four representative entities are enumerated.')

prop(id='C17', title='Materials, their cells and the data held for them stay in step',
     statement='A cell has a material exactly if the cell set of the material has the cell, each once, and the queries by material number, by name and by cell all agree, after every sequence of adding and '
               'removing materials and adding cells; materials after a removed one move down by one, a name in use cannot be used again, and a material named like a cell set of the mesh takes that set over with its cells. '
               'Every multi-material vector, on the mesh or a tile, made before or after, has a row for each material with one entry per cell in the order of the cell set, and keeps the values it held.',
     over=['histories', 'inputs'], forall='every sequence of additions and removals of materials and cells, owned, ghost or neither, and every vector made between them',
     why='The tests add materials with disjoint new sets once and never remove one, add cells already there, or look at ghost cells.',
     files=['src/statemanager/JaliState.h', 'src/statemanager/JaliState.cc', 'src/statemanager/JaliStateVector.h'],
     mech=[('add_material, rem_material, add_cells_to_material', 'JaliState.cc'), ('material queries', 'JaliState.h'), ('add_material, rem_material, insert, resize', 'JaliStateVector.h')],
     state=[('material_cellsets_', 'the cell set of each material'), ('cell_materials_', 'the materials of each cell'), ('mydata_', 'the rows of a vector')],
     technique='abstract interpretation of the operations over a finite domain of representative cells, materials and vectors, compared with the relation between materials and cells',
     note=NOTE + 'Up to four materials, representative cells of each type and up to three changes in a row are enumerated.')

prop(id='C19', title='Mesh fields come in as vectors and vectors on the mesh go out as fields',
     statement='Importing from a mesh makes one vector for each of its fields on nodes, faces and cells of a type the state manager knows, with the field\'s name, kind, value type and the values of all entities, '
               'and releases the memory used. Exporting stores each single-value vector on the mesh under its name and kind from its own data, and nothing else; vectors on tiles or sets or of other types are passed over.',
     over=['inputs', 'configurations'], forall='every set of fields and vectors on every kind of entity, in two and three dimensions',
     why='The mesh framework built here has no fields of its own, so no test brings one in or out.',
     files=['src/statemanager/JaliState.cc', 'src/mesh/Mesh.hh'],
     mech=[('init_from_mesh, export_to_mesh', 'JaliState.cc'), ('get_field_info, get_field, store_field', 'Mesh.hh')],
     technique='abstract interpretation of import and export over meshes and state managers with fields and vectors of every type', note=NOTE)

prop(id='C21', title='A set built from a region has exactly the entities the region selects',
     statement='The set of cells, faces or nodes of a region of the geometric model has exactly the entities the region selects (by centroid for boxes, by all nodes for planes and polygons, around the nearest node for points, '
               'by label for labeled sets), a point lies in the cells whose faces it is behind, owned and ghost ones in their lists, under the name of the region, registered once; a logical region gives the union, intersection, difference or complement of the sets of its components, nested to any depth. '
               'Initialising the sets makes one set for each region and kind and none twice, and a region or component that does not exist or cannot select such entities is an error.',
     over=['inputs', 'histories'], forall='every geometric model and mesh, and every order of building sets',
     why='The tests build a few sets on serial meshes, where no entity is a ghost and no set is built twice.',
     files=['src/mesh/Mesh.cc', 'src/mesh/MeshSet.cc', 'src/geometry/GeometricModel.cc', 'src/geometry/LogicalRegion.cc', 'src/geometry/LabeledSetRegion.cc'],
     mech=[('build_set_from_region, init_sets_from_geometric_model, valid_region_name', 'Mesh.cc'), ('FindRegion', 'GeometricModel.cc')],
     state=[('meshsets_', 'the sets of the mesh'), ('Regions', 'the regions of the model')],
     technique='abstract interpretation of set building over a finite domain of representative entities and every table of which points lie inside',
     note=NOTE + 'Whether a point lies in a region is a free table here (C18 decides it); whether it lies in a cell is decided for convex cells on a line, in the plane and in space. Cells of boxes are taken as numbered owned first, as all mesh frameworks do.')

prop(id='C25', title='Points follow vector algebra in one, two and three dimensions',
     statement='Sums, differences, multiples, quotients, scalar and cross products and norms of points have the components vector algebra gives, for every dimension and all values, and depend on no component beyond the dimension; '
               'every way of constructing, copying or setting a point gives it the stated dimension and components, the accessors give them back, and writing it writes them.',
     over=['inputs'], forall='all points of one, two or three dimensions',
     why='The tests evaluate a few operators on one pair of points.',
     files=['src/geometry/Point.hh'],
     mech=[('constructors, set, operators', 'Point.hh'), ('L22, norm', 'Point.hh')],
     state=[('xyz', 'the components'), ('d', 'the dimension')],
     technique='value-flow summaries with free components, compared as normal forms of rational functions with vector algebra', note=NOTE + 'Real arithmetic; rounding is not modelled.')

prop(id='C18', title='Regions hold the points they describe; models and domains hold their regions',
     statement='A point is in a box if it lies between the corners in each direction, in a plane if the offset is orthogonal to the normal, in a point region if it coincides, in a polygon or polyhedral cell if it is inside its boundary; '
               'a query point of another dimension, or of a logical or labeled region, is an error. Regions and their copies give back name, number, dimension, life cycle and data as made, a box counting the directions it extends in. '
               'Geometric models and domains list and find exactly what was put in, and refuse dimensions other than two and three and parts that do not fit.',
     over=['inputs'], forall='every region, model, domain and query point, in one, two and three dimensions',
     why='The tests query a few points well inside or outside of a few regions; domains and polyhedral cells are never tested.',
     files=['src/geometry/BoxRegion.cc', 'src/geometry/PlaneRegion.cc', 'src/geometry/PointRegion.cc', 'src/geometry/LogicalRegion.cc', 'src/geometry/LabeledSetRegion.cc', 'src/geometry/Region.cc',
            'src/geometry/GeometricModel.cc', 'src/geometry/Domain.cc', 'src/geometry/Geometry.cc'],
     mech=[('inside, constructors, getters', '*Region.cc'), ('Add_Region, FindRegion, Region_i', 'GeometricModel.cc'), ('Add_Geometric_Model, Add_Free_Region', 'Domain.cc'), ('point_in_polygon, point_in_polyhed', 'Geometry.cc')],
     state=[('Regions', 'the regions of a model'), ('GeometricModels, FreeRegions', 'the parts of a domain')],
     technique='derivation of the condition under which each query holds, with free coordinates, decided on representatives of every arrangement of points',
     note=NOTE + 'Points within rounding distance of a boundary are not decided. The polygon region is not compiled here and not covered.')

prop(id='C26', title='Areas, volumes, centroids and normals are those of the integral formulas',
     statement='The area, centroid and normal of a polygon that its mean corner sees whole, in the plane or in space, and the volume and centroid of a polyhedron of any mix of triangles and larger faces, are the integrals over it whatever corner or face comes first; '
               'area and volume are negative if it is inverted and zero without enough corners. The normal of a bent polygon is its vector area. '
               'Segments and faces of one-dimensional meshes have the lengths, volumes and areas of Cartesian or spherical geometry.',
     over=['inputs'], forall='all corner coordinates, for every number of corners and faces',
     why='The tests compute a few polygons and polyhedra with fixed coordinates.',
     files=['src/geometry/Geometry.cc', 'src/geometry/Point.hh'],
     mech=[('polygon_get_area_centroid_normal, polyhed_get_vol_centroid', 'Geometry.cc'), ('segment_get_vol_centroid, face1d_get_area', 'Geometry.cc')],
     technique='derivation of the results as functions of free coordinates and identity testing of these functions against the integral formulas',
     note=NOTE + 'Polygons of 3 to 6 corners and five types of polyhedra; real arithmetic. Cylindrical geometry is declared but not implemented in Jali and not covered.')

prop(id='C08', title='Volumes, areas, centroids and normals of mesh entities match their shapes',
     statement='Cells, faces and edges have the volume, area, length and centroid of their shape; the normal of a face has the face\'s area and points out of the cell it is asked for, with its orientation reported right. '
               'Sides, wedges and corners have their exact volumes, their normals and points run as documented (outward, between wedges, positive order), and the facets of a corner close and enclose its volume. '
               'Recomputed values equal cached ones, also after nodes moved and the geometry was updated; cells behind the boundary have volume zero.',
     over=['inputs', 'histories'], forall='all node coordinates of meshes with flat faces, every mix of cell shapes and face orientations, every history of moving nodes and updating',
     why='The stable tests compare volumes and areas of structured boxes; sides, wedges, corners, normals of unstructured cells and updates are never tested.',
     files=['src/mesh/Mesh.cc', 'src/mesh/Mesh.hh', 'src/geometry/Geometry.cc', 'src/geometry/Point.hh'],
     mech=[('compute_*_geometry, compute_*_geometric_quantities, update_geometric_quantities', 'Mesh.cc'), ('cell_volume .. corner_volume, *_normal, *_centroid, *_get_coordinates, corner_get_facetization', 'Mesh.cc')],
     state=[('cell_volumes .. corner_volumes, *_centroids, face_normal0/1, side_*_normal', 'the cached geometry')],
     technique='value-flow summaries of the geometric queries over small abstract meshes with free node coordinates, identity-tested against the integral formulas',
     note=NOTE + 'Seven meshes (segments, shells, polygons, surface, prism, pyramid, tetrahedra); real arithmetic; flat faces in the identities. Branches on coordinates are taken as at the placement tested.')

prop(id='C20', title='Sides, wedges and corners decompose every cell consistently',
     statement='A mesh asked for sides, wedges or corners has one side per cell, face and edge of it, with its nodes in the order of positive volume, two wedges per side, one per node, and one corner per cell and node with exactly the wedges there. '
               'Opposite sides and wedges share face, edge and node across two cells and name each other, or are absent at the boundary. '
               'All maps between sides, wedges, corners and cells, faces, edges and nodes agree in both directions, and every part has the type of its cell.',
     over=['inputs', 'configurations'], forall='every mesh topology, orientation of faces and edges, entity type and choice of entities requested',
     why='The tests of sides, wedges and corners need unstructured meshes and do not run here; they compare a few counts and volumes.',
     files=['src/mesh/Mesh.cc', 'src/mesh/Mesh.hh'],
     mech=[('cache_side_info, cache_wedge_info, cache_corner_info', 'Mesh.cc'), ('side_get_*, wedge_get_*, corner_get_*, *_get_sides, *_get_wedges, *_get_corners', 'Mesh.hh, Mesh.cc')],
     state=[('side_*_id, wedge_*, corner_*, cell_side_ids, node_corner_ids', 'the decomposition'), ('sideids_*, wedgeids_*, cornerids_*', 'the lists by type')],
     technique='abstract interpretation of building and querying the decomposition over a finite domain of small mesh topologies, compared with the decomposition by definition',
     note=NOTE + 'Five topologies on a line, in the plane and in space with mixed orientations and owned, ghost and boundary-ghost cells.')

prop(id='C23', title='Adjacency queries give the neighbours the framework has, of the type asked for',
     statement='Queries for the faces, edges, nodes, cells and coordinates of an entity give exactly what the mesh framework gives, in order and with directions, for every entity. '
               'Those with an entity type give exactly the neighbours of that type, and cell neighbours across faces or nodes are each neighbour once and not the cell itself. '
               'Lists passed in are replaced and not appended to, and the answer does not depend on what was cached.',
     over=['inputs', 'configurations'], forall='every mesh topology, entity, entity type and choice of entities requested',
     why='The tests ask for a few neighbours in structured boxes, where all faces of a cell are alike and no entity is a ghost.',
     files=['src/mesh/Mesh.cc', 'src/mesh/Mesh.hh'],
     mech=[('cache_cell2face_info, cache_face2edge_info, cache_cell2edge_info, cache_edge2node_info, cache_cell2edge_info', 'Mesh.cc'), ('cell_get_faces_and_dirs .. node_get_cell_adj_*', 'Mesh.cc, Mesh.hh')],
     state=[('cell_face_ids, cell_face_dirs, face_cell_ids, face_edge_ids, cell_edge_ids, edge_node_ids', 'the cached adjacencies')],
     technique='abstract interpretation of caching and querying over a finite domain of small mesh topologies behind the framework primitives', note=NOTE)

prop(id='C22', title='A simple mesh is exactly the grid it was asked for',
     statement='A simple mesh of nx by ny by nz cells in a box, or of the segments between given points, has one node at each grid point, one cell in each box with its nodes in standard order, and one face at each place of the grid. '
               'Faces and directions of cells, cells and faces at nodes, neighbors, coordinates, counts, types, volumes, areas and normals are those of the grid, in every query and for every type asked for. '
               'Moving a node changes its coordinates and nothing else, and what the framework cannot make is refused.',
     over=['inputs', 'configurations'], forall='every box, number of cells in each direction, list of points and kind of entity requested',
     why='The tests use one or two cubes of equal numbers of cells, where mixed-up directions give the same answers, and ask for few adjacencies.',
     files=['src/mesh/mesh_simple/Mesh_simple.cc', 'src/mesh/mesh_simple/Mesh_simple.hh', 'src/mesh/Mesh.cc'],
     mech=[('constructors, update_internals_3d_, update_internals_1d_, *_index_', 'Mesh_simple.cc, Mesh_simple.hh'), ('queries', 'Mesh_simple.cc')],
     state=[('cell_to_face_, cell_to_node_, face_to_node_, face_to_cell_, node_to_face_, node_to_cell_', 'the adjacencies'), ('coordinates_', 'the coordinates')],
     technique='abstract interpretation of constructors and queries with free corners over grids of representative sizes, matched with the grid by coordinates in normal form',
     note=NOTE + 'Five sizes of boxes and four of lists of points (more in the thorough tier); the proof for each size is for all coordinates. Edges of one-dimensional meshes are not covered.')

prop(id='C15', title='Tiles cover the mesh and own each entity exactly once',
     statement='The tiles of a mesh partition its owned cells as asked: blocks of the grid, parts of equal ids, or the parts the graph partitioner gives for the cells and their common faces; '
               'their halos are the cells within the asked number of layers of node neighbours. Every node, edge and face of the cells is owned by one tile, its master (none in a mesh without tiles), and a ghost in the other tiles that see it; sides, wedges and corners follow their cells. '
               'Lists of a tile name each entity once, owned then ghost, agree with its counts, and its share of a mesh set is its entities of that type in the set.',
     over=['inputs', 'configurations'], forall='every mesh topology, partition, number of tiles and halo layers, entity and kind of entity requested',
     why='The tests that make tiles need unstructured meshes and do not run here; they look at cells of a box on one partition.',
     files=['src/mesh/MeshTile.cc', 'src/mesh/MeshTile.hh', 'src/mesh/Mesh.cc', 'src/mesh/Mesh.hh', 'src/mesh/block_partition.cc'],
     mech=[('MeshTile constructor, get_entities_in_set, num_entities', 'MeshTile.cc, MeshTile.hh'), ('build_tiles, add_tile, get_partitioning, get_partitioning_with_metis, get_partitioning_by_blocks, master_tile_ID_*', 'Mesh.cc, Mesh.hh')],
     state=[('cellids_*, nodeids_*, faceids_*, edgeids_*, sideids_*', 'the lists of the tile'), ('tile IDs of entities', 'the master tile')],
     technique='abstract interpretation of partitioning and tiling over a finite domain of small meshes and partitions, judged against ownership by definition',
     note=NOTE + 'Five topologies and simple meshes, one to four tiles, zero to two halo layers; METIS itself is taken as any function from the graph to parts, only the graph and the use of its answer are judged. Balance of parts is not claimed.')

prop(id='C06', title='Nothing depends on values that were never set',
     statement='Whatever constructor makes an object, every member with a plain value (number, truth value, kind, pointer) that its later use reads is set when the constructor returns; '
               'and no function computes with, decides by or answers with a variable before it was given a value. So what a program does never depends on what happened to be in memory.',
     over=['inputs', 'histories'], forall='every constructor, its arguments and every function and path through it',
     why='A value never set is often zero by chance, so tests pass.',
     files=['src/mesh/Mesh.hh', 'src/mesh/Mesh.cc', 'src/mesh/MeshSet.cc', 'src/mesh/MeshTile.cc', 'src/mesh/mesh_simple/Mesh_simple.cc', 'src/mesh/mesh_factory/MeshFactory.cc', 'src/geometry/Region.cc', 'src/geometry/Domain.cc', 'src/geometry/GeometricModel.cc', 'src/geometry/Geometry.cc', 'src/statemanager/JaliStateVector.h'],
     mech=[('constructors', 'all classes'), ('local variables', 'all functions')],
     technique='definite-assignment analysis by value-flow summaries of every constructor and function with free arguments',
     note=NOTE + 'Elements of arrays and lists are not tracked in this check (the checks of meshes do for the worlds they cover); values set on some paths only are reported for members, not for locals.')

prop(id='C09', title='Blocks of a regular grid tile it, as many as asked',
     statement='Dividing a regular grid of cells into blocks gives exactly the number of blocks asked for, none empty, each within the grid, no cell in two of them and every cell in one, '
               'with start zero and no cells in directions the grid does not have. A number of blocks that cannot be met (none, or more than there are cells) is refused.',
     over=['inputs'], forall='every dimension, number of cells in each direction and number of blocks',
     why='The tests try a few even and odd divisions of one size in each dimension and their overlap test compares a block with itself.',
     files=['src/mesh/block_partition.cc', 'src/mesh/block_partition.hh'],
     mech=[('block_partition_regular_mesh: bisection, uneven splits, squeezing out of parents', 'block_partition.cc')],
     technique='abstract interpretation over representative grid sizes and all numbers of blocks, judged by counting cells',
     note=NOTE + 'Twenty-six sizes of grids (more in the thorough tier), up to 20 cells; larger grids are not covered.')

prop(id='C27', title='Distributed meshes agree across ranks',
     statement='When a mesh is distributed over ranks, every entity is owned on exactly one rank, a ghost on a rank is owned with the same global ID and coordinates on another, and the owned entities of all ranks together are those of the serial mesh.',
     over=['configurations', 'schedules'], forall='every mesh and number of ranks',
     why='The tests that run on several ranks need the unstructured framework, which is absent here.',
     files=['src/mesh/Mesh.hh', 'src/mesh/mesh_mstk/Mesh_MSTK.cc'],
     mech=[('GID, entity_get_type', 'Mesh.hh'), ('distribution', 'Mesh_MSTK.cc')],
     na='Distribution and ghost exchange are done inside MSTK, which is not part of this source and not compiled here; the simple framework refuses more than one rank (C10 covers the refusal), so there is no code to analyse.')

prop(id='C28', title='A mesh written and read back is the same mesh',
     statement='A mesh written to a file and read again has the same cells, nodes, coordinates, sets and state fields.',
     over=['inputs', 'configurations'], forall='every mesh and file format',
     why='Reading and writing need a framework that is absent here.',
     files=['src/mesh/Mesh.hh', 'src/mesh/mesh_mstk/Mesh_MSTK.cc'],
     mech=[('write_to_exodus_file, write_to_gmv_file', 'Mesh.hh, Mesh_MSTK.cc')],
     na='All reading and writing of files is inside MSTK and Exodus, which are not compiled here; the part of the state in it (which fields go in and come back) is claimed in C19.')

prop(id='C29', title='Parts of a partition are balanced',
     statement='The largest part of a partition has at most a bounded excess of cells over the average.',
     over=['inputs'], forall='every mesh and number of parts',
     why='Partition tests look at one mesh.',
     files=['src/mesh/Mesh.cc'],
     mech=[('get_partitioning', 'Mesh.cc')],
     na='The balance of graph partitions is a runtime quantity decided inside METIS and Zoltan, on which no static argument over this source has a bound; what is asked of them and how their answer is used is claimed in C15, the blocks of grids in C09.')

prop(id='C30', title='Geometric quantities are accurate in floating point',
     statement='Volumes, areas, centroids and normals differ from the exact values by no more than a small multiple of the rounding unit, and region tests are right for points away from the boundary by more than their tolerance.',
     over=['inputs'], forall='every element with coordinates of any magnitude and aspect',
     why='The tests use small boxes with exactly representable coordinates.',
     files=['src/geometry/Geometry.cc', 'src/geometry/Point.hh'],
     mech=[('polygon_get_area_centroid_normal, polyhed_get_vol_centroid', 'Geometry.cc')],
     na='Error bounds depend on the magnitudes and cancellations of runtime coordinates, and for nearly degenerate elements no useful bound exists; the formulas themselves are claimed over exact arithmetic in C08, C18, C25 and C26.')

prop(id='C31', title='All ranks make the same collective calls in the same order',
     statement='Whatever the input, all ranks of a program reach the same collective communication calls in the same order, so no rank waits for ever.',
     over=['inputs', 'schedules'], forall='every program using Jali and every number of ranks',
     why='A rank that waits for ever shows only on the input that makes ranks differ.',
     files=['src/mesh/mesh_factory/MeshFactory.cc', 'src/mesh/Mesh.cc'],
     mech=[('reductions', 'MeshFactory.cc')],
     na='The order of calls depends on what the user program and MSTK do on each rank, neither of which is in this source; the collective calls of this library are only in the mesh factory, where agreement on failure is claimed in C10.')
