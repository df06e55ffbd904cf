import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
G='meshiphi/mesh_generation/'
p('C01','Mesh cells tile the requested region exactly',
 'For every accepted configuration, the cells of the built mesh cover the requested latitude/longitude region completely, without gaps, overlaps or parts outside it, whatever was split. This includes regions that cross the antimeridian and global regions, and each cell\'s stored polygon, centre and half-sizes describe the same rectangle. A region that the cell size does not divide evenly is refused instead of producing a mesh that overruns or misses part of it.',
 ['inputs','configurations'],'every region, cell size, split depth and data set accepted by the builder',
 'Tests build a handful of fixed meshes and compare them with stored copies; no test measures coverage or overlap, and antimeridian or global regions with splitting are barely sampled.',
 [G+'mesh_builder.py',G+'cellbox.py',G+'boundary.py',G+'aggregated_cellbox.py'],
 [('initial grid',G+'mesh_builder.py:initialize_cellboxes'),('quartering',G+'cellbox.py:split'),('divisibility check',G+'mesh_builder.py:validate_bounds')],
 ['EnvironmentMesh.to_json() cellboxes'])
p('C02','Refinement is a bounded quadtree with unique cell ids',
 'Every cell of a built mesh is either a cell of the initial grid or one exact quarter of a cell that was split, nested at most as deep as the configured split depth; with depth zero the mesh is the initial grid. When a cell is split all four of its quarters (or their descendants) are present and the cell itself is gone, and every cell id is unique.',
 ['inputs','configurations'],'every accepted configuration and data set',
 'Stored-mesh comparisons only cover a few configurations and depths; nothing checks the structural invariant itself.',
 [G+'mesh_builder.py',G+'cellbox.py'],[('depth bound',G+'mesh_builder.py:split_to_depth'),('replacement',G+'mesh_builder.py:split_and_replace')],['EnvironmentMesh.to_json() cellboxes'])
p('C03','Neighbour graph equals the geometric adjacency of the cells',
 'In every built mesh the neighbour graph has exactly one entry per cell, and lists in each of the eight compass directions exactly the cells that touch it there: sharing an edge segment for N/E/S/W, meeting only at that corner for the diagonals. The relation is symmetric (a is east of b exactly when b is west of a), mentions no absent cell and no cell twice, and wraps across the antimeridian for global regions and regions crossing it.',
 ['inputs','configurations'],'every accepted configuration, data set and order of splits it causes',
 'Unit tests check single graph operations on tiny fixed grids; the graph after arbitrary interleavings of multi-level splits is only compared for a few stored meshes.',
 [G+'neighbour_graph.py',G+'mesh_builder.py'],[('initial links',G+'neighbour_graph.py:initialise_map'),('link update on split',G+'mesh_builder.py:split_and_replace'),('adjacency test',G+'neighbour_graph.py:get_neighbour_case'),('global wrap',G+'mesh_builder.py:check_global_mesh')],['EnvironmentMesh.to_json() neighbour_graph'])
p('C04','Cells are split exactly where the data is heterogeneous',
 'Data sources are applied in configured order: when a source with splitting conditions is applied, every cell existing then or created meanwhile that is shallower than the split depth is split exactly when, among the conditions of the sources up to and including it, none finds the cell locked as homogeneous and at least one finds it heterogeneous. Otherwise the cell stays whole, so the resulting set of cells is determined by the region, the data and the conditions alone. This holds for every kind of source (scalar, vector and polygon) and condition (threshold shares, curl, difference from the mean, polygon edges), and a single cell asked whether it should be split, over all its sources or the first few, answers by the same rule.',
 ['inputs','configurations'],'every combination of data sources, splitting conditions, split locks, data minimums and depths',
 'The regression meshes use one or two sources with fixed conditions; combinations of several sources, locks, thresholds exactly hit and sparse data are not sampled.',
 [G+'mesh_builder.py',G+'cellbox.py','meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/vector/abstract_vector.py','meshiphi/dataloaders/lut/abstract_lut.py'],[('split loop',G+'mesh_builder.py:split_to_depth'),('decision rule',G+'cellbox.py:should_split')],['EnvironmentMesh.to_json() cellboxes'])
p('C05','Scalar cell values are the statistic of exactly the cell\'s data',
 'For every scalar source, the value stored in a cell (or returned for any boundary) is the configured statistic (MIN, MAX, MEAN, MEDIAN, STD or COUNT, in upper or lower case) of exactly the non-missing data points lying in it: longitudes and latitudes above the lower edge and up to and including the upper edge, times within the region\'s first to last day inclusive. This holds alike for tabular and gridded sources and for regions and cells that cross the antimeridian. Asked with skipna off, a boundary holding a missing value gives a missing value, and COUNT counts it.',
 ['inputs','configurations'],'every data set, cell geometry, statistic and time range',
 'Tests compare a few stored values; points on cell edges, time limits, missing values and antimeridian cells are not systematically exercised.',
 ['meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/scalar/scalar_csv.py',G+'cellbox.py'],[('window selection','meshiphi/dataloaders/scalar/abstract_scalar.py:trim_datapoints'),('statistic','meshiphi/dataloaders/scalar/abstract_scalar.py:get_value'),('per-cell subset',G+'cellbox.py:split')],['EnvironmentMesh.to_json() cellboxes','loader.get_value()'])
p('C06','Every data point is counted in exactly one cell',
 'Across the cells of any mesh, each data point inside the region (within its time range) is attributed to exactly one cell, and points outside to none, so counts over the cells add up to the number of points in the region. The same holds for the four quarters of any cell and for any partition of a boundary.',
 ['inputs','configurations'],'every data set (including points on shared edges and corners), region and refinement',
 'No test checks conservation of data points; edge and corner points and the antimeridian seam are where windows double count or drop.',
 ['meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/vector/abstract_vector.py',G+'mesh_builder.py'],[('half-open windows','meshiphi/dataloaders/scalar/abstract_scalar.py:trim_datapoints')],['EnvironmentMesh.to_json() cellboxes','loader.trim_datapoints()'])
p('C07','Vector cell values are the statistic of the cell\'s own vectors',
 'For every two-component vector source, MEAN and STD are taken per component over the data points in the cell, MIN and MAX return both components of the one point with the smallest or largest magnitude, and COUNT is the number of points; missing values are ignored (with skipna off they make MEAN and STD missing and are counted) and MEDIAN is refused. The result depends only on the points in the cell and the statistic, not on the letter case of its name, on how many files the points came from or whether they are tabular or gridded.',
 ['inputs','configurations'],'every vector data set, cell geometry and statistic',
 'Vector statistics are sampled by one or two stored meshes with MEAN only.',
 ['meshiphi/dataloaders/vector/abstract_vector.py','meshiphi/dataloaders/vector/vector_csv.py',G+'cellbox.py'],[('statistic','meshiphi/dataloaders/vector/abstract_vector.py:get_value'),('magnitude','meshiphi/dataloaders/vector/abstract_vector.py:add_mag_dir')],['EnvironmentMesh.to_json() cellboxes','loader.get_value()'])
p('C08','Polygon look-up values come from the polygons meeting the cell',
 'For every polygon look-up source, a cell\'s value, by a statistic named in either letter case, is computed from exactly the polygons that intersect it (within the time range if dated): the smallest, largest or number of values, or the mean, median or standard deviation weighted by the area of overlap with the cell. A missing value among them makes the value missing, or is left out with skipna on. Multi-part polygons count as their parts, and non-polygon geometry is refused. Places outside all polygons of a file are missing (or the opposite truth value), and the built-in ice thickness and density tables give each region and date the value of its season.',
 ['inputs','configurations'],'every set of polygons, values, cells and statistics',
 'No existing test evaluates a look-up source statistic.',
 ['meshiphi/dataloaders/lut/abstract_lut.py','meshiphi/dataloaders/lut/lut_csv.py','meshiphi/dataloaders/lut/lut_geojson.py'],[('selection','meshiphi/dataloaders/lut/abstract_lut.py:trim_datapoints'),('statistic','meshiphi/dataloaders/lut/abstract_lut.py:get_value')],['loader.get_value()','EnvironmentMesh.to_json() cellboxes'])
p('C09','Homogeneity verdicts follow the thresholds exactly',
 'For every boundary and splitting condition a scalar or vector source answers: clear if it has fewer points than the minimum or the share of (non-missing) points above the threshold is at most the lower bound; locked-homogeneous (only with split lock, else clear) if the share is at least the upper bound; heterogeneous otherwise. For vectors the compared quantity is the curl or the distance to the mean vector; a polygon source answers heterogeneous exactly when boundary splitting is on and a polygon edge crosses the cell, and otherwise clear, or locked when no polygon meets the cell and split lock is set.',
 ['inputs','configurations'],'every data set, boundary and condition, including shares exactly equal to a bound and values exactly at the threshold',
 'Tests exercise verdicts only through a few stored meshes; ties, missing values, minimum counts and vector/polygon conditions are not enumerated.',
 ['meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/vector/abstract_vector.py','meshiphi/dataloaders/lut/abstract_lut.py'],[('scalar verdict','meshiphi/dataloaders/scalar/abstract_scalar.py:get_hom_condition'),('vector verdict','meshiphi/dataloaders/vector/abstract_vector.py:get_hom_condition'),('polygon verdict','meshiphi/dataloaders/lut/abstract_lut.py:get_hom_condition')],['loader.get_hom_condition()'])
p('C10','Saving and loading a mesh loses nothing',
 'For every mesh, writing it as JSON and loading it back yields a mesh with the same cells (ids, geometry, centres, values), the same neighbour graph, bounds and configuration, and writing that again yields the same document. This includes cells crossing the antimeridian and missing values, and a loaded mesh is independent of the document and of other meshes loaded from it: changing one changes no other, and a document once written does not change with the mesh.',
 ['inputs','histories'],'every mesh the library can build, merge or split',
 'Round trips are tested for one or two stored meshes that have no antimeridian cells.',
 [G+'environment_mesh.py',G+'aggregated_cellbox.py',G+'boundary.py',G+'neighbour_graph.py'],[('save/load',G+'environment_mesh.py:to_json, load_from_json'),('cell codec',G+'aggregated_cellbox.py')],['EnvironmentMesh.to_json()','EnvironmentMesh.save()'])
p('C11','Merging meshes gives one consistent mesh, second mesh winning',
 'Merging a mesh, built or loaded, aligned with the initial cells of another into it keeps every cell (and value) of the first that lies outside the second\'s region, takes all cells and values of the second, and gives every cell a unique id that agrees with the neighbour graph. The merged cells do not overlap, the neighbour graph equals their geometric adjacency, the second mesh is left unmodified, and a misaligned mesh is refused with the first left unchanged.',
 ['inputs','histories'],'every pair and sequence of meshes, whatever their position, size and refinement',
 'One stored merge pair is tested; sequences of merges, corner positions, different refinements and id collisions are not.',
 [G+'environment_mesh.py',G+'neighbour_graph.py'],[('merge',G+'environment_mesh.py:merge_mesh'),('id shift',G+'environment_mesh.py:increment_ids'),('edge tying',G+'environment_mesh.py:tie_*_cellbox_ng')],['EnvironmentMesh.to_json() after merge'])
p('C12','Splitting a loaded mesh preserves tiling, values and adjacency',
 'Splitting any cell of a loaded (or just built) mesh replaces it by its four exact quarters, each carrying the original\'s values and a fresh unique id, and leaves all other cells as they were; after any sequence of such splits the cells still tile the same area and the neighbour graph equals their geometric adjacency. Splitting around points refines exactly the cells containing the points down to the smallest cell size the configuration allows (stopping where a point comes to lie on an edge), and ignores points outside the mesh.',
 ['inputs','histories'],'every mesh and every sequence of splits and points',
 'Unit tests split one or two cells of one stored mesh.',
 [G+'environment_mesh.py',G+'neighbour_graph.py',G+'boundary.py'],[('split',G+'environment_mesh.py:split_and_replace'),('points',G+'environment_mesh.py:split_points')],['EnvironmentMesh.to_json() after splits'])
p('C13','Point queries find the one cell containing the point',
 'For every mesh, a point strictly inside a cell is reported as inside the mesh and located in exactly that cell (by its id), also in cells that cross the antimeridian; a point outside all cells or exactly on an edge is in no cell: it is reported as outside and locating it is an error. Looking a cell up by id returns that cell, and updating a cell by position changes that cell only and refuses an invalid position.',
 ['inputs'],'every mesh and every point',
 'Queries are tested with two or three points on one stored mesh.',
 [G+'environment_mesh.py',G+'aggregated_cellbox.py'],[('query',G+'environment_mesh.py:query_index'),('containment',G+'aggregated_cellbox.py:contains_point')],['EnvironmentMesh.query_index()','EnvironmentMesh.get_cellbox()','EnvironmentMesh.update_cellbox()'])
p('C14','Configuration validation accepts exactly well-formed configs',
 'Mesh configuration validation, given a dictionary or a path to a file, accepts a configuration exactly when all required region, data source and splitting fields are present with the right types, no unknown fields appear in them, dates are valid calendar dates or relative to today, and the cell size is positive and divides the region; anything else raises. Route, vessel and waypoint inputs are likewise refused when a required field, source or destination is missing or a coordinate is not numeric.',
 ['inputs','configurations'],'every well-formed configuration and every single-fault mutation of one',
 'No unit test covers the validator.',
 ['meshiphi/config_validation/config_validator.py','meshiphi/config_validation/mesh_schema.py','meshiphi/config_validation/vessel_schema.py','meshiphi/config_validation/route_schema.py'],[('validation','meshiphi/config_validation/config_validator.py')],['validate_mesh_config()','validate_waypoints()','validate_route_config()','validate_vessel_config()'])
p('C15','Boundaries behave as rectangles on the sphere\'s grid',
 'For every valid boundary, width, height, centre, half-sizes, polygon form and the four-way split are mutually consistent, also when it crosses or ends at the antimeridian; converting to a polygon string and back gives the same rectangle. Reversed latitudes, longitudes outside -180..180, reversed or malformed dates are refused; relative dates resolve to today plus or minus the given days; equality means same edges, and same times where both have them.',
 ['inputs'],'every latitude, longitude and time range',
 'Unit tests use one fixed boundary; antimeridian ends and date arithmetic are barely sampled.',
 [G+'boundary.py'],[('geometry',G+'boundary.py:Boundary')],['Boundary methods'])
p('C16','Builds are reproducible from their own saved configuration',
 'Building the same configuration twice gives identical meshes (random fields being given a seed), and rebuilding from the configuration stored inside a saved mesh reproduces that mesh: same cells, values and neighbour graph. Building does not alter the data files, uses them as they are at the time (a file rewritten since is read anew), and the stored configuration carries the resolved dates and data files actually used.',
 ['inputs','histories','configurations'],'every configuration and any number of rebuild generations',
 'Rebuilding is only exercised for stored regression meshes; second-generation rebuilds and relative dates are not.',
 [G+'mesh_builder.py',G+'environment_mesh.py','meshiphi/dataloaders/factory.py'],[('config capture',G+'mesh_builder.py:__init__, initialize_meta_data'),('export',G+'environment_mesh.py:to_json')],['EnvironmentMesh.to_json()'])
p('C17','Exports present the same cells and values as the mesh',
 'The GeoJSON export has one feature per cell with the cell\'s id, polygon and values (infinities and missing values become null, booleans may appear as numbers; with a chosen layer only that value is kept), and the raster export shows at each pixel the value of the cell containing the pixel centre, north up, placed on the mesh bounds; the table of shapes has every cell with its polygon and values. Exporting never changes the mesh, and an unknown format writes nothing.',
 ['inputs','configurations'],'every mesh, layer and raster resolution, including non-square ones',
 'Exports are smoke-tested for one stored mesh at a square resolution, and contents are not compared.',
 [G+'environment_mesh.py','meshiphi/mesh_plotting/mesh_plotter.py'],[('geojson',G+'environment_mesh.py:to_geojson'),('tif',G+'environment_mesh.py:to_tif')],['files written by EnvironmentMesh.save()'])
p('C18','Mesh comparison reports exactly the differing cells',
 'Comparing two meshes reports exactly: cells present only in the second by geometry; common cells whose shared values differ beyond four significant figures; common cells whose attribute sets differ; and cells with the same id whose neighbour lists differ as sets per direction. Comparing a mesh with itself or with a reordered copy reports nothing.',
 ['inputs'],'every pair of meshes and every planted difference',
 'The comparator is the test oracle of the regression suite and is itself never tested.',
 ['meshiphi/mesh_validation/mesh_comparator.py','meshiphi/utils.py'],[('comparison','meshiphi/mesh_validation/mesh_comparator.py')],['MeshComparator.compare_*()'])
p('C19','Missing data is filled and duplicate sources resolved as configured',
 'A cell with no (or only missing) data for a source takes the value of its nearest enclosing ancestor cell that has data by default, or the configured constant, or stays missing if so configured or if no ancestor has data; an invalid setting behaves as the default. When several sources provide the same quantity the earliest one with a non-missing value wins, for scalar and vector quantities alike.',
 ['inputs','configurations'],'every sparse data set, refinement depth, fill setting and order of sources',
 'Fill settings other than the default and duplicate sources are covered by one stored mesh at most.',
 [G+'cellbox.py',G+'mesh_builder.py'],[('fallback',G+'cellbox.py:aggregate, check_vector_data'),('setting',G+'mesh_builder.py:check_value_fill_type')],['EnvironmentMesh.to_json() cellboxes'])
p('C20','Downsampling and reprojection preserve what the data says',
 'Downsampling a grid by (m,n) replaces each block of m longitudes by n latitudes by its aggregate at the block\'s mean position, partial edge blocks included (with COUNT the first point of each block is kept), and leaves the data unchanged for factors of one. Reprojecting moves every non-missing data point to the longitude/latitude that its source coordinates denote, keeping its values and time; fast reprojection instead gives an ascending grid of the same field, interpolated, with nothing outside it.',
 ['inputs','configurations'],'every grid size, factor pair, aggregate and supported projection',
 'One stored mesh each covers downsampling and reprojection, and both are unstable here.',
 ['meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/vector/abstract_vector.py'],[('downsample','abstract_scalar.py/abstract_vector.py:downsample'),('reproject','abstract_scalar.py/abstract_vector.py:reproject')],['loader.data'])
p('C21','Synthetic sources produce the described field',
 'In regions that do not cross the antimeridian, the circle (points within the radius of the centre), rectangle (points no further from the centre than width and height along each axis), gradient and checkerboard sources (scalar and vector) produce that pattern at every grid point of the region for every centre (by default the middle grid point), size, orientation and resolution; random-field sources are reproducible from their seed, respect the requested size, value range, binary threshold and offset, and cover the region.',
 ['inputs','configurations'],'every parameter combination and region',
 'Each generator is covered by one stored mesh with one parameter set.',
 ['meshiphi/dataloaders/scalar/shape.py','meshiphi/dataloaders/vector/vector_shape.py','meshiphi/dataloaders/scalar/scalar_grf.py','meshiphi/dataloaders/vector/vector_grf.py'],[('shapes','meshiphi/dataloaders/scalar/shape.py'),('random fields','meshiphi/dataloaders/scalar/scalar_grf.py')],['loader.data'])
p('C22','Utility helpers are mathematically right',
 'Longitude wrapping maps every angle to the equivalent one within -180..180 and leaves in-range angles alone; the distance between two longitudes is symmetric and never above 180; rounding to significant figures is right for zero, negative, huge, tiny, infinite and missing numbers and for every input container. Durations, date ranges and month fractions agree with the calendar, curl and divergence of a flow are its finite differences, and the timing and logging decorators change neither arguments, results nor exceptions.',
 ['inputs'],'every finite angle, number and date pair',
 'The helpers have no unit tests of their own.',
 ['meshiphi/utils.py'],[('helpers','meshiphi/utils.py')],['function results'])
p('C23','Mesh validation reports the true error against the source data',
 'Validating a mesh against its source data reports the mean and root-mean-square of the absolute difference between each source point and the value of the cell containing it, each point counted once (component-wise distance for vectors), together with the number of cells; a point on an edge belongs to the cell to its west or south. Validation by sampled windows reports the root-mean-square error of the points in windows that lie within the mesh, wherever it lies; data without coordinate columns is refused and the inputs are not modified.',
 ['inputs'],'every mesh and data set, including points on shared cell edges',
 'The validator is never tested against an independent error computation.',
 ['meshiphi/mesh_validation/full_mesh_validator.py'],[('metrics','meshiphi/mesh_validation/full_mesh_validator.py')],['validate_scalar()','validate_vector()'])
p('C24','Command line tools do what the library calls do',
 'Creating, rebuilding, exporting and merging meshes from the command line writes to the requested (or default) output file exactly the document the corresponding library calls give, leaves its input files unchanged, and a failing command leaves an existing valid output untouched. Merging a directory equals merging its meshes one after the other in some order.',
 ['inputs','configurations'],'every subcommand, option combination and input mesh or configuration',
 'CLI unit tests check argument parsing and one run each.',
 ['meshiphi/cli.py'],[('entry points','meshiphi/cli.py')],['output files'])
p('C25','Loader factory resolves names, files and requirements faithfully',
 'Every documented loader name, in any letter case, yields its loader with the given parameters; a file, a list of files and a folder (taken in sorted order) holding the same data give the same source; tables count whatever their file names and order of columns; unknown names, missing required parameters and tables with too few, too many or misnamed columns are refused. Values default as documented when parameters are omitted.',
 ['inputs','configurations'],'every loader name, letter case, file layout and parameter subset',
 'Only the loaders used in stored meshes are instantiated by tests.',
 ['meshiphi/dataloaders/factory.py','meshiphi/dataloaders/dataloader_interface.py'],[('factory','meshiphi/dataloaders/factory.py')],['DataLoaderFactory.get_dataloader()'])
D='meshiphi/dataloaders/'
p('C26','Products are read in their native conventions without loss or distortion',
 'Each supported product file is read into points at their true latitude and longitude in -180..180, with the product\'s documented quantity, unit, sign and direction (percent ice, negative depth, cloud masked, u/v components, directions), whatever its axis order, longitude range, layering or number of files. Of products stored as one file per day or per forecast run, exactly the files for the time range, or of the latest run before it, are used. No point of the region and time range is lost, duplicated or moved.',
 ['inputs','configurations'],'every product, region, time range and set of files',
 'The stored meshes use three or four products; the others are never opened by a test.',
 [D+'scalar/',D+'vector/'],[('readers',D+'scalar/*.py, vector/*.py:import_data'),('window',D+'scalar/abstract_scalar.py:trim_datapoints')],['loader.data','loader.get_value()'])
p('C27','Adding a loader to a builder equals configuring it',
 'Adding a loader to a mesh builder with add_dataloader(), before or after a mesh was built, gives the builder back, and the mesh it builds next has the cells, values, fills and neighbour graph of a mesh whose configuration had that source last; given bounds of its own, the loader counts only the data inside them. Meshes built earlier by the same builder do not change, changing one (by a merge or split) changes neither the builder, its configuration nor the others, and building again without changes gives the same mesh.',
 ['inputs','histories','configurations'],'every region, set of configured sources, added loaders and moment of adding',
 'No test calls add_dataloader() or builds twice from one builder.',
 [G+'mesh_builder.py',G+'cellbox.py',G+'metadata.py'],[('adding',G+'mesh_builder.py:add_dataloader'),('building',G+'mesh_builder.py:build_environmental_mesh')],['EnvironmentMesh.to_json()'])
p('C28','Loaders give coverage, magnitude, curl and spread as defined',
 'For any boundary, a loader of points reports as its coverage the share of the boundary (in square degrees) inside the smallest rectangle around its non-missing data, and a loader of polygons the share inside the union of its polygons, 0 without data. Every vector is kept with its magnitude and direction; the curl field, the distances of the vectors from their mean, and their mean and extreme (the extreme curl with its sign) follow from the vectors of the boundary, or of the data handed over, and other aggregates are refused. Renaming the components of a vector loader changes names alone.',
 ['inputs'],'every data set, form of data (table, grid, polygons), boundary and missing-value pattern',
 'No test calls calculate_coverage, calc_curl or calc_dmag with known answers; their results only show through split decisions on the example meshes.',
 ['meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/vector/abstract_vector.py','meshiphi/dataloaders/lut/abstract_lut.py'],[('coverage','meshiphi/dataloaders/scalar/abstract_scalar.py:calculate_coverage'),('polygon coverage','meshiphi/dataloaders/lut/abstract_lut.py:calculate_coverage'),('curl','meshiphi/dataloaders/vector/abstract_vector.py:calc_curl'),('spread','meshiphi/dataloaders/vector/abstract_vector.py:calc_dmag')],['loader.calculate_coverage()','loader.calc_curl()','loader.calc_dmag()','loader.data'])
p('C29','PNG pictures colour every cell by its value',
 'A mesh saved or plotted as a PNG picture shows, for every region including those that cross the antimeridian, each cell at its place (north up, west left, the region filling the picture) in the colour its value has in the colour map between the smallest and the largest value of the mesh, and flagged cells, and only those, in the colour of their flag. A picture shows only the mesh it was made of, however many were drawn before, and drawing does not change the mesh.',
 ['inputs','histories'],'every mesh, layer and sequence of pictures',
 'No test looks at a picture.',
 ['meshiphi/mesh_plotting/mesh_plotter.py',G+'environment_mesh.py'],[('plotter','meshiphi/mesh_plotting/mesh_plotter.py'),('saving',G+'environment_mesh.py:to_png, save')],['PNG files written by EnvironmentMesh.save() and MeshPlotter.save()'])
p('C30','Test tool runs the tests of what changed and reports their outcomes',
 'Given a branch (or the working tree) and a reference branch, the test tool takes as changed exactly the files that the branch changed since it left the reference branch (or in which the working tree differs from it), runs once each regression and unit test file listed for them, as asked for, and no others, and records each test they hold under its outcome (passed, failed or error) with its file and name. Asked to save, it leaves in the folder for results exactly the regression outputs whose new mesh differs from the old one, unaltered; it works without a terminal and changes neither the repository nor the branch.',
 ['histories','configurations'],'every history of the two branches, set of changed files, table of tests and outcome of the tests',
 'No test runs the tool.',
 ['meshiphi/test_automation/test_automater.py','meshiphi/cli.py','meshiphi/__init__.py'],[('changed files','meshiphi/test_automation/test_automater.py:get_diff_filenames'),('selection and running','meshiphi/test_automation/test_automater.py'),('entry point','meshiphi/cli.py:meshiphi_test_cli')],['TestAutomater results','files left in the folder for results','test processes started'])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,x['id']
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
print(len(P))
