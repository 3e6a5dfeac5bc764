IO = 'glmtools/io/'
GR = 'glmtools/grid/'
PL = 'glmtools/plot/'

PROPS = [
 dict(id='C01', title='Subsetting by id returns exactly the requested entities and relatives',
      statement='Reducing a hierarchical dataset to a list of ids at any level returns exactly the entities with those ids, all of their descendants and all of their ancestors, and nothing else. Ids are honoured in the order requested, repeats are kept, and ids that do not exist (together with anything that claims them as parent) are ignored. This holds for any number of levels.',
      over=['inputs', 'configurations'], text='every dataset, every level, every list of ids including repeated, absent and empty ones',
      why='The tests prune one small sample tree by a few ids; they never use absent, repeated or reordered ids, orphan children, or a hierarchy of another depth.',
      files=[IO + 'traversal.py', IO + 'glm.py'],
      mech=[('level-by-level selection through groupby indices', IO + 'traversal.py reduce_to_entities'), ('flash selection', IO + 'glm.py get_flashes')],
      observe=['returned dataset']),
 dict(id='C02', title='Child counts and replicated parent ids stay row-aligned',
      statement='Child counts are reported per parent row in the row order of the dataset, with zero for parents without children, for every level between the two requested. Ancestor ids replicated down to a level line up row by row with that level. The counts and the owner-flash ids that loading a file adds are those same values for flashes, groups and events.',
      over=['inputs', 'configurations'], text='every dataset, including parents without children, unsorted and non-contiguous ids',
      why='Tests count children on one sorted sample tree; alignment errors only show for unsorted ids or childless parents.',
      files=[IO + 'traversal.py', IO + 'glm.py'],
      mech=[('counts', IO + 'traversal.py count_children'), ('replication', IO + 'traversal.py replicate_parent_ids'), ('derived variables', IO + 'glm.py GLMDataset')],
      observe=['returned arrays', 'derived count variables']),
 dict(id='C03', title='Files without flashes, groups or events load and traverse',
      statement='A file in which any level is empty loads, can be traversed and can be turned into an event lookup table. The derived variables exist and are as long as their level: children that do not exist are counted as zero, children that do exist are counted, and no owner or other value is invented.',
      over=['inputs'], text='every combination of empty levels',
      why='Only initialisation of an empty traversal is tested; the derived variables, navigation and lookup table of empty files are not.',
      files=[IO + 'glm.py', IO + 'traversal.py'],
      mech=[('guards for empty dimensions', IO + 'glm.py GLMDataset, get_lutevents'), ('stand-in for an empty grouping', IO + 'traversal.py')],
      observe=['derived variables']),
 dict(id='C04', title='A loaded file is a self-consistent flash/group/event tree',
      statement='The consistency report lists, per level, how many ids there are and exactly which parents have no children and which children name a missing parent. When loading finds any such problem the dataset is pruned to the flashes that exist and have groups, together with their groups and events; otherwise the data are left alone. A hierarchy definition whose number of parent levels does not fit is refused.',
      over=['inputs', 'configurations'], text='every dataset, with any combination of childless parents and orphans at any level',
      why='No test loads an inconsistent file.',
      files=[IO + 'traversal.py', IO + 'glm.py'],
      mech=[('consistency report', IO + 'traversal.py check_parent_child'), ('pruning', IO + 'glm.py GLMDataset.__init__')],
      observe=['report', 'dataset after loading']),
 dict(id='C05', title='Energies are nJ and areas km2 at every level, values and labels together',
      statement='After loading with the default options flash, group and event energies are in nJ and flash and group areas in km2, with the value scaled exactly once and the units label changed with it. Each of the two conversions can be switched off on its own, leaving values and labels as they were in the file. An unexpected energy unit is refused.',
      over=['inputs', 'configurations'], text='every dataset and every combination of the unit options',
      why='Tests only compare summed totals of one file in one configuration.',
      files=[IO + 'glm.py'], mech=[('unit conversion', IO + 'glm.py _change_energy_units, _check_area_units')],
      observe=['values and units attributes']),
 dict(id='C06', title='Fill values and zero energies are repaired exactly, before unit conversion',
      statement='Areas lost to overflow become the largest encodable area of their own variable and events below the smallest encodable energy become half of it; every other value is untouched. The repairs happen in file units, before units are converted, and only when the corresponding option is on.',
      over=['inputs'], text='every dataset; every encoding (scale, offset, fill value) and every set of missing or zero entries',
      why='The sample files contain neither overflowed areas nor zero-energy events at all levels.',
      files=[IO + 'glm.py'], mech=[('overflow repair', IO + 'glm.py _check_area_overflow'), ('zero energy repair', IO + 'glm.py _eliminate_zero_energy')],
      observe=['values after loading']),
 dict(id='C07', title='Flashes, groups and events are navigated with one geometry',
      statement='The fixed grid coordinates added for flashes, groups and events are each computed from that level\'s own longitudes and latitudes, with the satellite longitude of the file and one lightning ellipsoid for all levels. The ellipsoid is the requested revision, or the one in force on the date of the product when none is requested.',
      over=['inputs', 'configurations'], text='every dataset, product time and revision option',
      why='Tests navigate single points with a fixed revision; no test compares levels or dates around the ellipsoid change.',
      files=[IO + 'glm.py', IO + 'lightning_ellipse.py'], mech=[('navigation of all levels', IO + 'glm.py'), ('revision by date', IO + 'lightning_ellipse.py ltg_ellpse_rev')],
      observe=['x and y variables']),
 dict(id='C08', title='Lightning ellipsoid navigation: right ellipsoid, wrapped, inputs kept',
      statement='Longitude and latitude are mapped to fixed grid angles by the view vector to the chosen lightning ellipsoid revision, with the geodetic reference parameters given by the caller. Longitude differences across the date line are wrapped into plus or minus 180 degrees. The input arrays are not modified.',
      over=['inputs', 'configurations'], text='all longitudes, latitudes, satellite positions, both ellipsoid revisions',
      why='Tests check a handful of points near the satellite; none crosses the date line or reuses the inputs.',
      files=[IO + 'lightning_ellipse.py'], mech=[('view vector', IO + 'lightning_ellipse.py')],
      observe=['returned angles', 'input arrays']),
 dict(id='C09', title='Flash filters keep exactly the qualifying flashes',
      statement='Filtering keeps a flash exactly when its own coordinates lie strictly inside every requested range and it has at least the requested number of events and of groups. Unless switched off, a flash must also have an event inside the valid field of view narrowed by the requested ranges. The flashes are returned with all of their groups and events, and an option not given restricts nothing.',
      over=['inputs', 'configurations'], text='every dataset and every combination of filter options',
      why='Tests use a single combination of filters.',
      files=[IO + 'glm.py'], mech=[('flash filter', IO + 'glm.py subset_flashes'), ('event range check', IO + 'glm.py _check_event_xy')],
      observe=['returned dataset']),
 dict(id='C10', title='The event lookup table aggregates each cell over its own members',
      statement='Each row of the event lookup table describes the events that share one discretised location: mean position, summed energy and number of events, the number and total area of the distinct flashes and groups they belong to, the smallest area among those flashes, and the time of the product. Every event is assigned to exactly one row, and the original dataset is not changed.',
      over=['inputs', 'configurations'], text='every dataset, discretisation step and range',
      why='The test compares table totals on one file.',
      files=[IO + 'glm.py'], mech=[('table construction', IO + 'glm.py get_lutevents, event_lut_iter')],
      observe=['table columns']),
 dict(id='C11', title='Combined two-dimensional cell keys never collide',
      statement='Two locations receive the same combined key exactly when they fall in the same discrete x cell and the same discrete y cell. The row stride used to combine the two indices is larger than the largest x index within the stated range.',
      over=['inputs', 'configurations'], text='all locations within the stated range, all steps',
      why='Collisions need two specific locations at opposite edges of neighbouring rows.',
      files=[IO + 'glm.py', GR + 'split_events.py'], mech=[('combined index', IO + 'glm.py discretize_2d_location')],
      observe=['key values']),
 dict(id='C12', title='Split energies follow event area, counts and areas follow cell coverage',
      statement='When an event is divided among grid cells its energy is shared by the fraction of the event that falls in each cell, while flash and group counts and total areas are weighted by the fraction of the cell that is covered. Minimum flash area, ids and times are copied to every fragment without weighting. Both fractions are the absolute area of the fragment over the area of the whole event or cell.',
      over=['inputs'], text='every set of events, fragments and cells',
      why='Tests compare a few gridded totals of one file; swapping the two fractions or weighting one more variable leaves most totals close.',
      files=[GR + 'split_events.py', GR + 'clipping.py', IO + 'mimic_lma.py'],
      mech=[('fraction per fragment', GR + 'clipping.py QuadMeshPolySlicer.quad_frac_from_poly_area'), ('weighting', IO + 'mimic_lma.py replicate_and_weight_split_child_dataset_new'), ('weighting of full events', GR + 'split_events.py replicate_and_weight_split_child_dataset')],
      observe=['split tables']),
 dict(id='C13', title='Every polygon fragment keeps its own parent, cell, area and centre',
      statement='Slicing events, groups or flashes on the target mesh yields one row per fragment whose parent id, cell indices, area, area fractions, centroid and time all belong to that same fragment and its parent. Every fragment of every polygon in every candidate cell is kept once, and joined polygons of a group or flash are made only of its own events.',
      over=['inputs'], text='all polygons, cells and numbers of fragments, including polygons with no fragments or several in one cell',
      why='Tests slice a few hand-made quads; misaligned columns only appear with uneven numbers of fragments per polygon.',
      files=[GR + 'clipping.py', GR + 'split_events.py', IO + 'mimic_lma.py'],
      mech=[('slicing', GR + 'clipping.py QuadMeshPolySlicer.slice'), ('tables of fragments', GR + 'split_events.py split_event_data, split_event_dataset_from_props'), ('grouping of polygons', IO + 'mimic_lma.py read_flash_chunk')],
      observe=['fragment tables']),
 dict(id='C14', title='Mesh lookups return the cells that can touch a polygon, axes in order',
      statement='For a bounding box a regular mesh gives the whole block of cells the box can overlap, also where the box reaches past the mesh edge, and a general mesh gives the requested number of cells nearest the location. Each cell comes with its own four corners in ring order, its own area and its own x and y index, with the same axis order for both kinds of mesh.',
      over=['inputs', 'configurations'], text='every mesh, bounding box and neighbour count',
      why='Tests use square meshes and boxes well inside the mesh, which hide swapped axes and edge cells.',
      files=[GR + 'clipping.py'],
      mech=[('corner and index arrays', GR + 'clipping.py QuadMeshSubset.__init__'), ('regular lookup', GR + 'clipping.py QuadMeshSubset'), ('polygon area', GR + 'clipping.py poly_area')],
      observe=['returned quads, areas and indices']),
 dict(id='C15', title='Values accumulate into exactly their own grid cell',
      statement='Sum accumulation adds each value of a batch, in which a cell occurs once, to the cell named by its own x and y index and leaves other cells alone. Minimum accumulation keeps the smallest value seen in a cell, treating untouched cells as empty rather than as zero, across any number of batches. The accumulators look only at the table (events or flashes) they were built for, and skip empty tables.',
      over=['inputs', 'histories'], text='all sequences of batches, index lists and grid shapes',
      why='No test calls the accumulators; second batches on the same cell and non-square grids are needed to see the errors.',
      files=[GR + 'accumulate.py'],
      mech=[('sum', GR + 'accumulate.py accumulate_var_on_grid_direct_idx'), ('minimum', GR + 'accumulate.py accumulate_minvar_on_grid_direct_idx'), ('selection of the table', GR + 'accumulate.py select_dataset')],
      observe=['grid after the batches']),
 dict(id='C22', title='Options reach the code that uses them, unchanged',
      statement='Every option given to the readers and the gridding entry points (ranges, minimum counts, clipping mesh, fixed grid, satellite longitude, base date, ellipsoid revision, output options) reaches the consumer it is documented for, with the value given, in every tile and for every file. Options not given keep their documented default, and an option given as False behaves as off.',
      over=['configurations'], text='every combination of options',
      why='Tests use one fixed set of options; a dropped or crossed option leaves that run unchanged.',
      files=[IO + 'mimic_lma.py', GR + 'make_grids.py'],
      mech=[('reader options', IO + 'mimic_lma.py read_flashes'), ('gridder options', GR + 'make_grids.py grid_GLM_flashes, proc_each_grid')],
      observe=['arguments of the consumers']),
 dict(id='C23', title='Each selected flash is processed once and sent to every target',
      statement='Reading splits the selected flashes into chunks that together contain each of them exactly once, whatever their number, and every chunk is converted and sent to the target of each product level. Files in which nothing is selected send nothing.',
      over=['inputs', 'configurations'], text='any number of flashes, chunk size, set of targets and clipping mode',
      why='The sample files fit in few chunks, so lost or repeated remainders do not show.',
      files=[IO + 'mimic_lma.py', GR + 'accumulate.py'],
      mech=[('chunking', IO + 'mimic_lma.py read_flashes'), ('sending', IO + 'mimic_lma.py read_flashes, send_group_to_target')],
      observe=['values sent to the targets']),
 dict(id='C24', title='LMA-style tables take each column from the matching GLM variable and level',
      statement='The event and flash tables made for the gridder hold, in each column, the value of the corresponding variable of the level the table represents (flash, group or event; split or not), row for row: position, times in seconds since the base date, duration, energy, area, ids and mesh cell. The tables have one row per entity or fragment and no column is left unset.',
      over=['inputs', 'configurations'], text='every dataset, level and split mode, including empty ones',
      why='No test looks at these tables; they feed the gridder only through totals.',
      files=[IO + 'mimic_lma.py'],
      mech=[('table construction', IO + 'mimic_lma.py _fake_lma_from_glm_*'), ('dispatch by level', IO + 'mimic_lma.py mimic_lma_dataset, mimic_lma_dataset_lut')],
      observe=['columns of the tables']),
 dict(id='C34', title='Time-indexed collections return the data of the file that covers the time',
      statement='A collection indexes each file by its product time and returns, for a time, the stacked events and flashes of exactly that file, read with the base date, minimum counts and ranges of the collection. The series classes hand their files, window, base date and filter options on to the collection and the base class. The polygon series selects flashes by initial position and start time and events by position and time, each with its own filter.',
      over=['inputs', 'configurations'], text='every list of files, time and option', why='No test uses these classes.',
      files=[IO + 'mimic_lma.py'],
      mech=[('collection', IO + 'mimic_lma.py GLMncCollection'), ('time series', IO + 'mimic_lma.py TimeSeriesGLMFlashSubset, TimeSeriesGLMPolygonFlashSubset')],
      observe=['returned data', 'arguments of the base class']),
 dict(id='C35', title='The gridding script sets up the requested grid, period and options',
      statement='Each command line option is stored under its own name with the documented type and default. The grid handed to the gridder has the requested (or nearest standard) spacing, the requested number of cells and centre in both directions, and edges half a cell outside the outer cell centres; the period is the one given, or runs from the earliest start in the file names to 20 s after the latest. Minimum counts of one or less mean no check, and every other option reaches the gridder under its own name.',
      over=['inputs', 'configurations'], text='every set of option values, for latitude-longitude, GOES sector, mesoscale and custom fixed grids',
      why='Tests compare a few standard grid definitions only; option handling, custom grids and the period are not tested.',
      files=['examples/grid/make_GLM_grids.py'],
      mech=[('option table', 'examples/grid/make_GLM_grids.py create_parser'), ('grid, period and keyword set up', 'examples/grid/make_GLM_grids.py grid_setup, nearest_resolution')],
      observe=['returned keyword arguments', 'parser options']),
 dict(id='C26', title='Times in file names are decoded to the tenth of a second',
      statement='The start, end and creation times in a GLM file name are decoded as year, day of year, hour, minute, second and tenths of a second, each from its own field, and the environment, algorithm and platform fields are returned in order.',
      over=['inputs'], text='every well-formed file name', why='No test parses file names.',
      files=[IO + 'glm.py'], mech=[('file name parsing', IO + 'glm.py parse_glm_filename')], observe=['returned tuple']),
 dict(id='C29', title='Analysis calls leave the data they are given untouched',
      statement='Loading from an in-memory dataset, building the lookup table and navigating coordinates leave the values, attributes and variables of what the caller passed in unchanged.',
      over=['inputs', 'histories'], text='every dataset and every sequence of these calls on the same object',
      why='Tests never look at the inputs again after a call.',
      files=[IO + 'glm.py', IO + 'lightning_ellipse.py'], mech=[('copy on load', IO + 'glm.py GLMDataset.__init__')], observe=['caller\'s dataset']),
 dict(id='C30', title='Mis-tagged unsigned times are repaired only when and where needed',
      statement='Time offsets are re-read as unsigned exactly when the product lies entirely within the known problem period and the file carries the frame time variables, for all affected variables and each from its own raw values. Otherwise the times are left alone.',
      over=['inputs', 'configurations'], text='every product time span and every combination of present variables',
      why='No sample file falls in the problem period.',
      files=[IO + 'glm.py'], mech=[('time repair', IO + 'glm.py _check_and_fix_missing_unsigned_time')], observe=['time variables']),
 dict(id='C32', title='Signed storage of unsigned values is undone exactly',
      statement='Values that were stored as signed integers but are unsigned are restored by removing the scale and offset, adding the integer range to negative values and reapplying the same scale and offset; latitudes and longitudes each use their own offset.',
      over=['inputs'], text='all stored integers, scales and offsets', why='No test calls the repair.',
      files=[IO + 'glm.py'], mech=[('integer repair', IO + 'glm.py fix_unsigned, fix_event_locations')], observe=['returned arrays']),
 dict(id='C16', title='Each gridded product is accumulated from, and labelled as, its own quantity',
      statement='Every output product takes its values from its own variable and level: extent densities from cell counts, centroid densities from entity centres, areas and energy from their own columns. Each product has its own array, with one slice per frame, and carries the name, file name, description and units of that quantity, in the same order in all lists. Average areas are divided by the extent density of the same level.',
      over=['configurations'], text='both kinds of gridder, every projection, any number of frames and grid shape',
      why='The gridder tests compare totals of three products of one file; crossed labels, shared arrays or a frame index slip keep those totals.',
      files=[GR + 'make_grids.py'],
      mech=[('pipelines per level', GR + 'make_grids.py GLMlutGridder.flash_pipeline_setup, group_pipeline_setup, event_pipeline_setup'), ('order of outputs and labels', GR + 'make_grids.py GLMGridder.pipeline_setup, output_setup')],
      observe=['accumulated grids', 'names, units and averaging table']),
 dict(id='C17', title='Each frame is written once, oriented and timed correctly, averages divided',
      statement='One file is written per frame, covering exactly the interval of that frame. Images have rows from north to south and columns from west to east, matching the y and x coordinates written with them, with padding removed from grids and coordinates alike. Averages are totals divided by counts where both are nonzero and zero elsewhere, and every other product is written unchanged under its own name.',
      over=['inputs', 'configurations'], text='every grid, number of frames, padding and set of products',
      why='Tests read back a few sums; flips, frame shifts and division by the wrong count do not change those sums or concern products not compared.',
      files=[IO + 'imagery.py'],
      mech=[('writing', IO + 'imagery.py write_goes_imagery')],
      observe=['written datasets', 'returned file names']),
 dict(id='C18', title='Packed products get the right type, scale and offset and keep faint cells',
      statement='When packing is on, each known product is stored as unsigned 16 bit integers with its own documented scale factor and offset, and unknown products are stored unpacked. Values above zero but below the smallest representable step are raised to that step so that they do not vanish; all other values, zero included, are left alone. When packing is off nothing is altered.',
      over=['inputs', 'configurations'], text='every product and value, every type, scale and offset',
      why='Tests use totals with a tolerance that hides lost faint cells.',
      files=[IO + 'imagery.py'],
      mech=[('packing', IO + 'imagery.py glm_image_to_var'), ('scale table', IO + 'imagery.py glm_scaling')],
      observe=['encoding and values of the variables']),
 dict(id='C19', title='Aggregation sums counts and energy, reweights averages, keeps minima',
      statement='Aggregated densities and total energy are sums over the frames of each interval, average areas are total area over total count of the same level, and minimum flash area is the minimum. A frame belongs to the interval in which it starts, and intervals have the requested length from the requested start, or from the first frame. Products that are absent are left out, metadata of the products are kept and the time coverage spans all intervals.',
      over=['inputs', 'configurations'], text='every series of frames, interval length, start and end and set of products',
      why='No test aggregates frames.',
      files=[IO + 'imagery.py'], mech=[('aggregation', IO + 'imagery.py aggregate')],
      observe=['aggregated dataset']),
 dict(id='C20', title='A time series of images is indexed by the start time of each file',
      statement='Opening several image files gives one dataset whose time coordinate holds the coverage start of each file in the order of the files, and nothing is read from a file but its own times. The coverage of the whole runs from the earliest start to the latest end.',
      over=['inputs', 'configurations'], text='every list of files and chunk option',
      why='No test opens more than one image.',
      files=[IO + 'imagery.py'], mech=[('file times', IO + 'imagery.py gen_file_times'), ('joining', IO + 'imagery.py open_glm_time_series')],
      observe=['time coordinate, fields and coverage attributes']),
 dict(id='C21', title='Tiles cover the grid exactly once after their padding is removed',
      statement='Dividing a fixed grid into tiles gives tiles that meet at common edges, together span the whole requested range, and are each enlarged by a whole number of cells on all four sides. The enlarged range is used both for selecting flashes and for gridding, and exactly that padding is cut from grids and coordinates on output. Each tile has its own name and its options do not leak into other tiles or back to the caller.',
      over=['configurations'], text='any number of tiles, padding, cell size and range',
      why='Tests use a single tile without padding effects on the totals.',
      files=[GR + 'make_grids.py'],
      mech=[('tile edges', GR + 'make_grids.py subdivide_bnd'), ('tile options', GR + 'make_grids.py subdivided_fixed_grid'), ('cutting the padding', GR + 'make_grids.py GridOutputPreprocess')],
      observe=['options of each tile', 'captured and written arguments']),
 dict(id='C25', title='ASCII conversion puts every field in its own variable, record by record',
      statement='Each flash, group and event record of an ASCII file becomes one row whose columns are the fields of that record, with ids, counts and pixels as integers and the others as numbers. The converted dataset holds all three tables on their own dimensions, with positions, times, ids and parent ids as coordinates, and is written to the requested file.',
      over=['inputs'], text='every well-formed ASCII file', why='No test converts an ASCII file.',
      files=[IO + 'convert_lcfa.py'],
      mech=[('record parsing', IO + 'convert_lcfa.py gen_flash_data, gen_group_data, gen_event_data'), ('dataset', IO + 'convert_lcfa.py merge_dataframes_to_xarray')],
      observe=['rows', 'converted dataset']),
 dict(id='C27', title='Pixel corners and pixel lookups use matching positions, axes and order',
      statement='The corners of a pixel are its own position plus the inflated corner offsets interpolated from the corner table at that position, longitude offsets to longitudes and latitude offsets to latitudes, with the nearest table entry outside the table unless extrapolation is off. The nearest-pixel lookup is built from the valid pixels only, together with the row and column of exactly those pixels. Tables read from a file keep their corner order and axes, and what is saved is what loading returns.',
      over=['inputs', 'configurations'], text='every pixel array, mask, corner table, file and option', why='No test reads corner tables or builds a lookup.',
      files=[IO + 'ccd.py'],
      mech=[('corners', IO + 'ccd.py quads_from_corner_lookup'), ('tables', IO + 'ccd.py read_official_corner_lut'), ('lookup', IO + 'ccd.py create_pixel_lookup'), ('saving and loading', IO + 'ccd.py save_pixel_lookup, load_pixel_lookup')],
      observe=['corner arrays', 'lookup arrays', 'file contents']),
 dict(id='C31', title='Plots show the requested field, time and flash at their own positions',
      statement='A grid plot draws, in each panel, the requested product at the requested time with the colour range, label and number format of that product, over the extent of the grid scaled by the satellite height. A flash plot draws the groups, events and centroid of the requested flash only, each at its own longitude and latitude and coloured by its own energy. Options for axes, projection, panels and colours are used as given.',
      over=['inputs', 'configurations'], text='every dataset, time, flash id, list of products and option', why='No test draws a plot.',
      files=[PL + 'grid.py', PL + 'locations.py', PL + 'values.py'],
      mech=[('grid plot', PL + 'grid.py plot_glm_grid'), ('flash plot', PL + 'locations.py plot_flash'), ('display table', PL + 'values.py')],
      observe=['arguments of the drawing calls']),
 dict(id='C33', title='Image metadata describe the file they are in',
      statement='The global attributes of an image give its own start, end, platform, slot, instrument, scene, resolution and time line, the creation time in UTC, and a file name made from those same values. The projection, satellite position and coordinate variables carry the constants of the GOES-R fixed grid and the satellite longitude of the data. The scene is recognised from the extent, and the resolution from the spacing, of the coordinates.',
      over=['inputs', 'configurations'], text='every start and end time, platform, scene, grid and satellite longitude',
      why='No test looks at metadata.',
      files=[IO + 'imagery.py'],
      mech=[('global attributes', IO + 'imagery.py get_glm_global_attrs'), ('projection variables', IO + 'imagery.py get_goes_imager_*'), ('scene', IO + 'imagery.py infer_scene_from_dataset')],
      observe=['attributes, encodings and values of the metadata']),
]

NA = [
 dict(id='C90', title='Packed output values are within half a quantisation step',
      statement='Reading back a written image gives each value to within half of the packing step.',
      over=['inputs'], text='all grids', why='depends on float rounding of all values',
      files=[IO + 'imagery.py'], mech=[('encoding', IO + 'imagery.py')],
      reason='Quantifies over floating point rounding of run-time values; no static argument in reach bounds it.'),
]
