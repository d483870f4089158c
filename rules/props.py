"""The property table: text (-> properties.jsonl), claims (-> MANIFEST.json)."""
ALL = []


def P(id, title, statement, over, text, why, files, mechanism, group):
    ALL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]), group=group))


NA = []


def N(id, title, statement, over, text, why, files, mechanism, reason):
    ALL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])))
    NA.append(dict(property=id, reason=reason))


SAPF = ['SegmentedArrayPair_Module.py', 'cpp/SegmentedArrayPair.h', 'cpp/segmented_array_pair_solib.cpp', 'cpp/Pstruct.h']

P('C01', 'Full-index arithmetic of the segmented particle store',
  'In a segmented array pair, in its Python form and in every C++ form, the item with full index i of the "out" array is the one at offset i mod L of '
  'segment i div L (L = segment length), for reading, writing and conversion to a tuple, list or dictionary. The full index reported for a position in the '
  'current "in" or "out" segment is (current segment number)*L + offset of that array, and never of the other one.',
  ['inputs', 'configurations'], 'every segment length, every number of stored items, every index, every in/out orientation, all four record types',
  'The tests use one segment length and a few indices; off-by-one errors appear only at segment boundaries or after the arrays were swapped.',
  SAPF, [('get_segment_and_offset, get_item, get_as_tuple, get_as_list, get_full_index(es)', 'SegmentedArrayPair_Module.py, cpp/SegmentedArrayPair.h')], 'sap:index')

P('C02', 'Appending to the segmented store',
  'push_back puts the new item directly after the last one in the "out" array, whatever loops were run before, reusing an already allocated segment or adding '
  'exactly one when all are full; no stored item is overwritten or skipped, and the returned offset and full index are those of the new item. The constructor '
  'leaves both arrays empty with one segment each. All fields of the record are stored in their own field, from a record, tuple or list, in Python and C++.',
  ['inputs', 'histories'], 'every sequence of appends, loops, swaps and resets; every segment length; all record types',
  'The tests append in one pattern with one segment length; the reuse branch needs a shrink followed by growth.',
  SAPF, [('push_back, add_segment, constructor', 'SegmentedArrayPair_Module.py, cpp/SegmentedArrayPair.h')], 'sap:growth')

P('C03', 'Item and segment counts of the segmented store',
  'get_number_of_items is the number of items in the "out" array, and set_number_of_items(n) followed by it returns n for every n >= 0, including 0 and '
  'multiples of the segment length. Numbers of segments, capacity and storage size are reported per array as (in, out) and equal allocated segments times segment length.',
  ['inputs', 'histories'], 'every n, every segment length, both arrays, both implementations',
  'Counts go wrong at exact multiples of the segment length or at zero, which the tests barely sample.',
  SAPF, [('set_number_of_items, get_number_of_items, get_capacity, get_number_of_segments', 'SegmentedArrayPair_Module.py, cpp/SegmentedArrayPair.h')], 'sap:counts')

P('C04', 'Segment loops visit every stored item exactly once',
  'A loop over the segments of an array (first call, then next-segment calls until none is returned) yields every segment holding items once, in order, each with its exact '
  'item count, and stops after the last one. Starting an in/out loop swaps the two arrays, empties the new "out" array and gives its first segment; asking for the next '
  '"out" segment moves to the next allocated segment or adds one.',
  ['inputs', 'histories'], 'every number of items (0, partial, exactly full, several segments), every previous history, both implementations, pointer and array forms',
  'The boundary between "last segment full" and "next segment empty" is hit by few tests, and only for one segment length.',
  SAPF, [('init_out_loop, init_inout_loop, get_next_segment, get_next_out_segment, get_current_out_segment', 'SegmentedArrayPair_Module.py, cpp/SegmentedArrayPair.h')], 'sap:traversal')

MOV = ['Particle_Module.py', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp',
       'cpp/advance_charged_species_in_E_field_spherical_r.cpp', 'cpp/advance_neutral_species_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp',
       'cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp']
MOVMECH = [('advance_charged_species_in_E_field, advance_neutral_species, advance_charged_species_in_uniform_fields, move_particles_in_electrostatic_field', 'Particle_Module.py'),
           ('advance_charged_species_in_E_field<N>, advance_neutral_species<N>, advance_charged_species_in_uniform_fields', 'cpp/advance_*.cpp')]

P('C05', 'A particle move neither loses, duplicates nor mixes up particles',
  'One call of any mover (Python or C++) copies every particle of the "in" array once, in storage order, into consecutive slots of the "out" array, taking a new "out" segment '
  'exactly when one is full; a particle flagged for deletion is the only kind that leaves no slot, and the number of items reported for the "out" array afterwards equals the '
  'number of particles kept. Fields that the mover does not own (weight, unique ID, flags, velocity of a neutral) arrive unchanged.',
  ['inputs', 'histories', 'configurations'], 'every number of particles, segment length, field configuration, sequence of deletions; Python movers in x, xy, xyz, r and all compiled C++ movers',
  'Losing or duplicating a particle needs a deletion or a segment boundary at the right index; the tests move a handful of particles inside one segment.',
  MOV, MOVMECH, 'movers:movers')

P('C06', 'Particle push: v += (q/m) E dt, then x += v dt',
  'Every mover advances the velocity of each particle by (q/m)*dt times the electric field at that particle (the sign-flipped interpolated -E of the solved field when it is given and enabled '
  'for the species, zero otherwise, plus the external field when given and enabled), component by component, then saves the old position in the initial-position fields and advances the '
  'position by dt times the new velocity. With accel_only no position changes. Neutral particles keep their velocity. Every charged species that holds particles is advanced by its own integrator, '
  'with the fields and options the caller gave, and the same for neutral species.',
  ['inputs', 'configurations'], 'every particle, field value, species, time step, combination of enabled fields, dimension; Python and C++ movers and their dispatch',
  'A test samples few field configurations; swapping two components, using the wrong particle index for the field, or ignoring a per-species switch shows only in particular combinations.',
  MOV, MOVMECH + [('initialize_particle_integration, advance_charged_particles_in_E_field, advance_neutral_particles', 'Particle_Module.py')], 'movers:movers')

P('C07', 'Facet-by-facet tracking ends in the cell that contains the particle',
  'After its move a particle is followed from facet to facet: while its end point is outside the current cell, the facet crossed by the remaining displacement is found, the particle start point is moved to the '
  'crossing point (start + fraction*displacement, all components), the cell index becomes the neighbour across that facet, and "crossings" counts the facets crossed. '
  'The loop fails with an error when no facet is crossed, when the same facet is crossed twice in a row, or when MAX_FACET_CROSS_COUNT is exceeded. '
  'Leaving the mesh gives the cell index NO_CELL only if the particle is flagged for deletion.',
  ['inputs', 'histories'], 'every mesh, particle trajectory and number of crossings; Python movers in x, xy, xyz, r and all compiled C++ movers',
  'Multi-facet moves that turn at a reflecting boundary need particular trajectories; unit tests follow a few particles.',
  MOV, MOVMECH, 'movers:movers')

P('C08', 'Boundary functions run once per marked facet crossed, with that crossing data',
  'During a move the boundary function registered for (marker value, species) is called exactly once for each crossed facet that carries a nonzero particle-boundary marker, and never for an unmarked one, in crossing order, '
  'before the cell index is updated. It receives the particle record in the "out" array, the species name, the mesh index of the crossed facet, the fraction of the displacement at the crossing and the facet normal of that crossing '
  '(and the displacement, in C++).',
  ['inputs', 'histories'], 'every trajectory and set of boundary markers; Python and C++ movers',
  'Calling a boundary function with the data of the previous crossing, or for the wrong marker, needs several crossings in one step.',
  MOV, MOVMECH, 'movers:movers')

P('C09', 'Deletion and trajectory bookkeeping during a move',
  'When a move has to drop a particle flagged for deletion, the movers remove its trajectory entry (once, with the last data) if it was a trajectory particle, and every later trajectory particle that was kept has its storage index updated to its new one. A marked '
  'boundary crossing of a trajectory particle is recorded with the crossing time t-dt+(elapsed fraction)*dt, the "in" full index of that particle and the field components at it. update_trajectory_particleId replaces exactly '
  'the old full index by the new one, and remove_trajectory_particleId writes the final point and marks the slot NO_PINDEX.',
  ['inputs', 'histories'], 'every sequence of deletions and crossings, every set of trajectory particles; Python and C++ movers',
  'An index that goes stale after a deletion is observable only when a later step looks that particle up.',
  MOV, MOVMECH + [('update_trajectory_particleId, remove_trajectory_particleId', 'Particle_Module.py')], 'movers:movers_and_ids')

PM = ['Particle_Module.py']
P('C10', 'Trajectory points are stored in the right column, row and trajectory',
  'A trajectory datum goes to the trajectory whose stored index equals the given full index, at the row equal to the number of points recorded so far, which then grows by one; a full trajectory array records nothing more and does not affect other trajectories. '
  'Each requested column gets its own quantity: step, time, particle attribute (the crossing position for facet crossings), solved and external field component (sign-flipped from -E; zero when there is no field or the particle is deleted). '
  'record_trajectory_data records every live trajectory particle of every species once per step, and nothing on a repeated step.',
  ['inputs', 'histories'], 'every set of requested columns, species, trajectory length and sequence of records',
  'The tests look at a few columns of one species; misplaced rows appear only after deletions or when an array fills up.',
  PM + ['RecordedData_Module.py'], [('record_trajectory_datum, record_trajectory_data, remove_trajectory_particleId, update_trajectory_particleId', 'Particle_Module.py'), ('Trajectory_C', 'RecordedData_Module.py')], 'traj:trajectories')

P('C11', 'The most specific particle boundary function is selected',
  'For every particle boundary and species the function used is bc_at_<boundary>_for_<species> if the user defined it, else default_bc_at_<boundary>, else default_bc; it is stored under the integer tag of that boundary. '
  'The same holds for the C++ boundary-condition table (which fails when no function exists) and for the tables of source functions.',
  ['configurations'], 'every set of boundaries, species and user-defined functions; Python and C++ tables',
  'The tests define a few functions for a few boundaries; precedence errors need the right combination of present and absent functions.',
  ['Particle_Module.py', 'cpp/ParticleMeshBoundaryConditions.h'], [('ParticleMeshBoundaryConditions_C, ParticleMeshSources_C', 'Particle_Module.py'), ('ParticleMeshBoundaryConditions', 'cpp/ParticleMeshBoundaryConditions.h')], 'particles:bcs')

P('C12', 'Particle counts, physical numbers, kinetic energy and histories',
  'get_species_number is the sum of the weights of exactly the stored particles of the species, get_species_KE is half the mass times the weighted sum of squared velocity components over them, '
  'get_species_particle_count and get_total_particle_count are the numbers of stored macroparticles. record_history_data writes, at the next row, step, time, each requested quantity per species, per physical particle and summed over all species.',
  ['inputs', 'histories'], 'every particle population, storage history (Python and C++ segments), dimension and set of requested histories',
  'A stale or skipped segment changes the sums only after particles were deleted or a segment filled.',
  PM + ['RecordedData_Module.py'], [('get_species_number, get_species_KE, get_species_particle_count, get_total_particle_count, record_history_data', 'Particle_Module.py')], 'traj:histories_and_sums')

P('C13', 'Particle creation: lists, initial distributions and sources',
  'create_from_list stores every listed particle once and opens a trajectory for each one with the trajectory flag. initialize_particles and add_more_particles call the generator of every entry with its own region and parameters, sources exactly on steps that are a multiple of '
  'their timestep_interval. create_maxwellian_particles puts number_per_cell particles into each cell of the region: the first at the midpoint, the others at accepted random points of that cell; weight = cell volume * density / number_per_cell (divided by 4 pi in spherical r); '
  'initial position = position; velocity = Maxwellian + drift; the cell index of its cell; zero crossings; consecutive unique IDs that are never reused.',
  ['inputs', 'configurations'], 'every region, parameter set, dimension, number of particles',
  'Statistical tests cannot see a swapped field, a repeated unique ID or a wrong cell index.',
  PM, [('create_from_list, initialize_particles, add_more_particles, create_maxwellian_particles', 'Particle_Module.py')], 'particles:creation')

P('C14', 'Particle densities are accumulated from every stored particle once',
  'accumulate_number_density passes every stored particle of the species exactly once to the DoF-density and cell-density fields that are given, and divides the cell density by the cell volumes once at the end. '
  'accumulate_charge_density_from_particles adds charge times number density for every species. compute_mesh_cell_indices gives every stored particle the index of a cell that contains it, or fails; '
  'initialize_particle_mesh builds all mesh maps that the chosen (Python or C++) movers need.',
  ['inputs', 'histories'], 'every population and storage history',
  'A particle missed at a segment boundary changes a density by an amount no test compares exactly.',
  PM, [('accumulate_number_density, accumulate_charge_density_from_particles, compute_mesh_cell_indices, initialize_particle_mesh', 'Particle_Module.py')], 'particles:density_and_cells')

P('C15', 'Particle snapshots written to file are complete and consistently ordered',
  'The output file header names every species with its own index, mass and charge. Each snapshot is one new group Step#n (n counts snapshots) holding the time and one data set per requested attribute; every data set holds, species after species in the same order, the values of that attribute for all stored particles, '
  'floating attributes as floats and integer attributes (and the species index) as integers. A repeated step writes nothing; close_flag closes the file. Unknown attributes are rejected.',
  ['inputs', 'histories'], 'every population, list of attributes and number of snapshots',
  'The order and completeness across species and segments is not compared by the tests, which use one segment.',
  PM, [('check_particle_output_parameters, initialize_particle_output_file, write_particles_to_file', 'Particle_Module.py')], 'particles:output')

DM = ['Dolfin_Module.py']
P('C16', 'Mesh entity tables match the mesh',
  'The tables a Mesh_C builds for the movers agree with the mesh for every cell: cell_volume_dict holds the volume of the cell (in 1D spherical coordinates the shell volume 4*pi/3*(r1^3-r0^3) of its two vertices; other unknown systems are rejected), '
  'cell_dict, cell_vertices_dict and cell_entity_indices_dict the cell and the mesh indices of its vertices or facets in local order, vertex_cells_dict the cells around each vertex, cell_neighbors_dict for every local facet in order the index of the other cell that shares that facet or NO_CELL on the boundary, '
  'cell_facet_normals_dict the outward unit normal of every local facet. The C++ MeshEntityArrays<N> store the same neighbours and normals, row i for cell i, and their getters return the row of the cell they are asked for.',
  ['inputs', 'configurations'], 'every mesh in 1, 2 and 3 dimensions and every coordinate system; Python and C++ tables',
  'The tests check a few cells of tiny meshes; a wrong local order or a neighbour equal to the cell itself shows up only for particular facets.',
  DM + ['cpp/MeshEntityArrays.h', 'cpp/MeshEntityArrays.cpp'], [('compute_cell_volume_dict, compute_cell_entity_index_dict, compute_cell_neighbor_dict, compute_cell_facet_normals_dict and the 1D/2D/3D variants', 'Dolfin_Module.py'),
   ('MeshEntityArrays', 'cpp/MeshEntityArrays.cpp')], 'mesh:all_tables')

P('C17', 'Point location and facet search',
  'compute_cell_index returns a cell that contains the point and raises for a point outside the mesh. is_inside(point, cell) holds exactly for points of the closed cell, in Python and C++ (orientation tests against every facet, endpoints included). '
  'find_facet returns, for a displacement from a point in a cell, the local index of the first facet the displacement reaches among those it approaches (positive component along the outward normal), the fraction of the displacement up to it (in [0,1]) and its outward normal; '
  'NO_FACET and fraction 1 if it stays inside or is zero. A point numerically outside the facet it moves away through counts as on it with a small nonnegative distance.',
  ['inputs'], 'every cell, point and displacement in 1, 2 and 3 dimensions; Python and C++',
  'Geometric predicates depend on signs and orderings of real numbers; the tests use a handful of rays.',
  DM + ['cpp/dolfin_functions.cpp', 'cpp/predicates.cpp'], [('compute_cell_index, is_inside, find_facet', 'Dolfin_Module.py'), ('find_facet, is_inside_vertices', 'cpp/dolfin_functions.cpp'), ('_orient2d, _orient3d, _collides_segment_point_1d', 'cpp/predicates.cpp')],
  'mesh:all_location')

P('C18', 'Field operations act on the right degrees of freedom',
  'Field_C operations change exactly what they name: set_values and set_gaussian_values set every DoF of the field, or with a subdomain the DoFs of its cells (one Gaussian number per cell) with zero elsewhere; multiply_values scales every DoF of the field, or every DoF of the cells of the subdomain exactly once; multiply_add adds factor*other field. '
  'interpolate_field_to_points gives each point the value of the field on the cell of that point, component by component (Python and C++); interpolate_random_field_to_points likewise, each nonzero point value times one standard normal number. integrate_delta_function, interpolate_delta_function_to_dofs and add_weight_to_cell add weight times basis function '
  '(or the weight) to the DoFs of the particle cell only; divide_by_cell_volumes divides each cell DoF by its own volume once.',
  ['inputs', 'configurations'], 'every field type (scalar, vector), element, dimension, subdomain, particle and set of points',
  'The tests use constant fields or one subdomain, where a DoF shared by several cells or mixed components cannot be seen.',
  DM + ['cpp/dolfin_functions.cpp'], [('Field_C.*', 'Dolfin_Module.py'), ('interpolate_field_to_points', 'cpp/dolfin_functions.cpp')], 'fields:fields')

P('C19', 'Poisson assembly, solution and electric field stay consistent',
  'PoissonSolve_C assembles the matrix from the bilinear form with every boundary condition applied, reassembles it before each solve iff the coefficients are not constant, takes as right-hand side the assembled source expression or the given charge (times the factor) with every boundary condition applied, '
  'solves into the potential function passed by the user, and afterwards (when an electric field was given) sets the field to the projection of grad(potential), with function and function_values referring to the same data.',
  ['inputs', 'histories'], 'every source (none, number, expression, assembled charge), every set of boundary conditions, every sequence of solves',
  'A stale matrix, a boundary condition not applied to one of the two sides or a field vector that is no longer that of the function appears only on a later solve.',
  DM, [('PoissonSolve_C.__init__, assemble_matrix, assemble_source_expression, solve_for_phi, compute_negE', 'Dolfin_Module.py')], 'fields:poisson')

P('C20', 'Cell sets and regions describe exactly the cells inside',
  'A CellSet_C (whole mesh, RectangularRegion_C, SphericalRegion_C) lists exactly the cells whose midpoint is inside the region, with index, volume, midpoint and circumradius of each stored at the same position, and fails when it is empty. RectangularRegion_C contains the points between the two corners (both included, tolerance 1e-10) '
  'in every coordinate, SphericalRegion_C those within the radius of the centre. in_cell tells whether a point lies in the cell at that position of the list.',
  ['inputs', 'configurations'], 'every mesh, region and point in 1, 2 and 3 dimensions',
  'The tests use one region per dimension; a boundary or coordinate error needs other regions.',
  DM, [('CellSet_C, RectangularRegion_C, SphericalRegion_C', 'Dolfin_Module.py')], 'fields:regions')

UP = ['UserParticles_1D.py', 'UserParticles_2D_e.py', 'UserParticles_3D.py', 'cpp/UserParticleBoundaryFunctions.h', 'cpp/UserParticleBoundaryFunctions_2D_e.h', 'cpp/UPBFs_spherical_r.h', 'cpp/Pstruct.h']
P('C21', 'Supplied boundary functions absorb or reflect',
  'The boundary functions supplied with the code treat a crossing particle as documented. Reflecting ones (default_bc_at_rmin in 1D and in C++ spherical r, bc_at_rmin_for_test_electrons) subtract 2*(n.d)*n from the position, where n is the facet normal and d = (1-dx_fraction)*dx the part of the displacement beyond the facet, and 2*(n.u)*n from the velocity, '
  'and change nothing else. Absorbing ones set the DELETE flag and leave the other flag bits and everything else as they were. In C++ each function is registered under its own name. Python and C++ versions agree.',
  ['inputs'], 'every particle record, normal, displacement and crossing fraction in 1, 2 and 3 dimensions',
  'The tests reflect one or two particles on axis-aligned facets, where a wrong component or sign cannot be seen.',
  UP, [('UserParticleBoundaryFunctions_C.*', 'UserParticles_*.py'), ('UserParticleBoundaryFunctions<PT>', 'cpp/UserParticleBoundaryFunctions*.h, cpp/UPBFs_spherical_r.h'), ('reflect_from_surface', 'cpp/Pstruct.h')], 'bfuncs:boundary_functions')

P('C22', 'Particle container set-up and record layout',
  'Particle_C builds, for each coordinate system, a record [positions, initial positions, velocities, weight] in the chosen precision followed by bitflags, cell_index, unique_ID, crossings as int32; tables of charge, mass, charge/mass, dynamics, index (1, 2, ... in input order) for every species, the charged/neutral lists by charge, and one segmented store of SEGMENT_LENGTH per species '
  '(the C++ one of the same coordinate system iff use_cpp_integrators); unknown coordinate systems and an unset use_cpp_integrators are rejected. The C++ records have exactly that layout and order, are registered with numpy under the same field names, use the same flag bits, '
  'and are converted to and from tuples, lists and dictionaries field by field in that order.',
  ['inputs', 'configurations'], 'every coordinate system, list of species, precision and record value',
  'A swapped or missing field in one of the conversions, types or tables shows only for the species, record type or field concerned.',
  PM + ['cpp/Pstruct.h', 'cpp/numpy_types_solib.cpp', 'cpp/particle_solib.cpp'], [('Particle_C.__init__, ParticleSpecies_C.__init__', 'Particle_Module.py'), ('Pstruct<PT>', 'cpp/Pstruct.h'), ('PYBIND11_NUMPY_DTYPE_EX', 'cpp/numpy_types_solib.cpp')],
  'setup:records_and_container')

P('C23', 'The native modules offer what the Python side uses',
  'Each native module exports, for its coordinate system, the names the Python code looks up (the segmented stores of the four record types, the movers per number of facets, boundary-condition tables, boundary functions, mesh entity arrays, point location and interpolation), each bound to the '
  'C++ function or template instance of that name and dimension, with the same keyword names and default arguments as the Python version; the wrappers pass their arguments on unchanged and in order. Every attribute the C++ code asks of a Python object by name exists, and every Python method it calls back takes the arguments given.',
  ['inputs', 'configurations'], 'every exported name, overload, dimension and coordinate system; every argument',
  'A wrong instance or default in a binding compiles and shows only in the coordinate system or call form concerned; names looked up at run time are not checked by any compiler.',
  ['cpp/particle_solib.cpp', 'cpp/segmented_array_pair_solib.cpp', 'cpp/mesh_entity_arrays_solib.cpp', 'cpp/dolfin_functions_solib.cpp', 'cpp/user_particle_boundary_functions_solib.cpp', 'cpp/user_particle_boundary_functions_2D_e_solib.cpp', 'cpp/upbfs_spherical_r_solib.cpp'],
  [('PYBIND11_MODULE, make*', 'cpp/*_solib.cpp'), ('attr("...")', 'cpp/*.cpp')], 'bindings:interface')

P('C24', 'Every name, attribute, method and argument used exists',
  'On no path through the Python modules (error branches, options and dimensions that are rarely used included) does the code use a name that is bound nowhere, read a local variable that nothing can have assigned yet, read an attribute or method that neither the class of the object, '
  'its bases and subclasses, nor any script gives it, ask a module of the repository for something it does not define, call a function, method or class of the repository with arguments that do not fit its definition, or format a message with fewer values than places.',
  ['inputs', 'configurations'], 'every path of every function of every Python module in the top directory, whatever its inputs',
  'Python finds an undefined name only when the line runs; the tests never run most error branches and many configurations.',
  ['Particle_Module.py', 'Dolfin_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py', 'DT_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'UserParticles_1D.py', 'UserUnits_Module.py'],
  [('all functions and classes', '*.py')], 'names:names')

P('C25', 'Recording objects are set up to hold exactly what they will record',
  'A Trajectory_C records every skip-th step, where skip is 1 without a limit and int(n_timesteps/max_points + 1) with one, and has room for int(n_timesteps/skip + 1 + extra_points) points; for every charged and neutral species it starts with empty lists of particle indices, unique ids, data and lengths, and without the choice whether to write trajectory files it stops with a message. '
  'create_trajectory appends to the four lists of its species, and only those, the given index and id, length zero and an array of that many points whose columns are the charged or the neutral ones; write_trajectories_to_files writes one file per recorded particle, named by species and unique id, with exactly the recorded points in order, each with its time and every column as 64-bit float or integer. '
  'A History_C has its interval and number of points by the same rule; a ParticleHistory_C has a column for step, time, each requested scalar, and per species each scalar in total and per physical particle.',
  ['inputs', 'configurations', 'histories'], 'every combination of components, species, numbers of points and recorded particles',
  'Which component goes to which column, and which length belongs to which species, shows only for particular combinations of options; tests use one.',
  ['RecordedData_Module.py', 'Particle_Module.py'],
  [('Trajectory_C', 'RecordedData_Module.py'), ('History_C', 'RecordedData_Module.py'), ('ParticleHistory_C', 'RecordedData_Module.py')], 'recorded:recorded')

P('C26', 'A user mesh has the requested geometry and marks exactly its boundaries',
  'A Cartesian user mesh has as many dimensions as pmin and pmax differ in, with the requested cells per side and diagonal between them; the quarter-circle and spherical-radius meshes map the unit interval or rectangle to radius and angle with the requested extents and stretch. With a boundary dictionary, the facet marker of the fields (1D, circle and radial meshes) and of the particles (2D, circle and radial meshes) is zero except that the facets on each '
  'named side (minimum or maximum of that coordinate, within 1.0e-10, before the mapping) carry the number the dictionary gives that name; without a dictionary there is no marking. Markers given as files are read on that mesh and replace the made ones. A Mesh_C records its mesh, dimensions and coordinate system (required), and computes plot, search tree, dictionaries and C++ arrays when and only when each is asked for; combinations that are not implemented stop.',
  ['inputs', 'configurations'], 'every combination of dimension, coordinates, boundary dictionaries, files and flags',
  'A wrong boundary number or extent leads to a plausible run with the wrong boundary condition on one side; tests use a few meshes and do not look at every marker.',
  ['UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'Dolfin_Module.py'],
  [('UserMesh_C', 'UserMesh_y_Fields_FE_XYZ_Module.py'), ('UserMesh2DCirc_C', 'UserMesh_y_Fields_FE2D_Module.py'), ('UserMesh1DS_C', 'UserMesh_y_Fields_Spherical1D_Module.py'), ('Mesh_C.__init__', 'Dolfin_Module.py')], 'usermesh:meshes')

P('C27', 'A user Poisson problem is posed as requested',
  'Each user Poisson-solve class poses, over the function space of the given potential, the bilinear form epsilon_0 grad(w).grad(v) dx of its coordinate system (weighted by r squared for the spherical radius), one Dirichlet condition for the lower and one for the upper boundary with the number and the value the input gives that name, on the given facet marker (none at the inner radius of a spherical problem whose value is "unset"), '
  'passes on the linear solver and preconditioner when and only when given, keeps the given electric field, and assembles the matrix once and a zero source.',
  ['inputs', 'configurations'], 'every input: boundary names and values, element, solver choice',
  'A missing weight or a boundary value on the wrong side gives a smooth plausible potential; tests compare a few stored solutions with loose tolerances.',
  ['UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py'],
  [('UserPoissonSolve*_C', 'UserMesh_y_Fields_*_Module.py')], 'usermesh:poisson')

P('C28', 'Listed particles are complete, consistent records',
  'Every function of a user-particle distribution class that lists particles returns the number of particles together with that many records, each with exactly the items of a particle record for its number of coordinates: position, initial position (equal to the position), velocity, a positive weight, bit flags in which at most the trajectory flag is set, no cell index (the "no cell" value), a unique id and zero crossings. '
  'Ids are distinct and taken from the shared counter, which has advanced past every id handed out. A caller that asks for a type other than "listed" gets an error and no particles.',
  ['inputs', 'configurations'], 'every listed-distribution function of every maintained user-particle module, every value of the unique-id counter',
  'Tests call the few functions their own configuration names and read positions; a delete flag, a missing item or a reused id shows only when the particle is later stored, moved or written.',
  ['UserParticles_1D.py', 'UserParticles_2D_e.py', 'UserParticles_3D.py', 'UserParticles_H_He_e.py'],
  [('UserParticleDistributions_C.*', 'UserParticles_*.py')], 'listed:listed')

P('C29', 'Input and control objects start unset',
  'A new control, particle-input, trajectory-input, history-input, user-mesh-input or Poisson-input object has every parameter of its class, each unset (None) or, for the lists of history names and cells per side, its own empty list; a new control object seeds the random generator with 1, lists the two coordinate systems and asks for MPI only when told to.',
  ['inputs', 'configurations'], 'every input class',
  'Consumers test parameters for None to find what the user left out; tests set the parameters they need, so a default that is missing or shared shows only in a user script.',
  ['DT_Module.py', 'Particle_Module.py', 'RecordedData_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py'],
  [('*Input*_C.__init__, DTcontrol_C.__init__', '*.py')], 'inputs:inputs')
P('C30', 'Plots show the recorded data',
  'Trajectory_C.plot draws, for every recorded trajectory of every charged and neutral species, each recorded component against time over exactly the recorded points, and unless only time plots are asked for also y and ux against x when recorded, with the title naming species and unique id (or list position and index when there is no id) and axis labels naming the columns; every figure is shown and then closed. '
  'plot_trajectories_on_mesh draws the mesh and the x-y points of every trajectory of more than one point; ParticleHistory_C.plot draws the timestep and every scalar history against time. Species without trajectories are skipped.',
  ['inputs', 'configurations'], 'every set of recorded trajectories and histories',
  'Tests run with plotting off.',
  ['RecordedData_Module.py'],
  [('Trajectory_C.plot, Trajectory_C.plot_trajectories_on_mesh, ParticleHistory_C.plot', 'RecordedData_Module.py')], 'recorded:plots')
P('C31', 'Containers of different owners are distinct objects',
  'A mutable object (list, dictionary, set, array, or instance of a repository class) made at one place is kept in one place: no two attributes, species, keys or list items are given the same newly made object, whether by one assignment, across the passes of a loop, through a repeated list, a comprehension or fromkeys; no mutable class attribute is changed in place through an object and no mutable default parameter is changed or kept.',
  ['inputs', 'histories'], 'every function of every module',
  'Sharing shows only when a second species, trajectory or run changes what the first still uses; most tests have one of each.',
  ['Particle_Module.py', 'RecordedData_Module.py', 'Dolfin_Module.py', 'DT_Module.py', 'SegmentedArrayPair_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py'],
  [('every function', '*.py')], 'sharing:sharing')

N('N01', 'The computed potential solves the Poisson problem within the discretisation error',
  'For every mesh, charge distribution and boundary data, the electrostatic potential returned by solve_for_phi differs from the exact solution of the Poisson equation by no more than the finite-element error of the chosen element.',
  ['inputs'], 'every mesh, source and boundary condition', 'Tests compare a few solutions with stored numbers.',
  DM, [('PoissonSolve_C.solve_for_phi', 'Dolfin_Module.py')],
  'A bound on the discretisation and linear-solver error is a numerical statement about DOLFIN and PETSC run-time values; no static argument over this source reaches it. The call sequence and the data passed to the solver are decided under C19.')
N('N02', 'Total energy is conserved up to the order of the time integrator',
  'In a self-consistent electrostatic run without losses the sum of kinetic and field energy changes per step by no more than the order of the leap-frog scheme.',
  ['inputs', 'histories'], 'every run', 'Tests make a few steps.',
  PM, [('advance_charged_species_in_E_field', 'Particle_Module.py')],
  'A floating-point error bound over histories of a whole run, depending on mesh, step and solver; not derivable by static analysis. The update formulas themselves are decided under C06.')
N('N03', 'Generated velocities follow the requested drifting Maxwellian',
  'The velocities of created particles are distributed as a Maxwellian with the requested thermal speed and drift, and positions uniformly over the region.',
  ['inputs'], 'every random seed and parameter set', 'Statistical tests sample one seed.',
  PM, [('create_maxwellian_particles', 'Particle_Module.py')],
  'A statement about the distribution of the pseudo-random generator of numpy at run time. That each velocity is drift + one normal draw with the given thermal speed is decided under C13.')
N('N04', 'The adaptive geometric predicates are exact',
  'orient2dadapt and orient3dadapt return a value with the sign of the exact determinant for all double-precision inputs.',
  ['inputs'], 'all floating-point inputs', 'A few points are tested.',
  ['cpp/predicates.cpp'], [('_orient2dadapt, _orient3dadapt', 'cpp/predicates.cpp')],
  'Needs a proof about IEEE rounding of expansion arithmetic (Shewchuk); the value graphs here use real arithmetic, where the adaptive stages are the same value, so the analysis cannot see a rounding defect. When the adaptive stage is called and with what arguments is decided under C17.')
