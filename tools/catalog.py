"""
Source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py  rewrites both.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level='exploration', observe=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, level=level, observe=observe))


H, I, C = 'histories', 'inputs', 'configurations'
MODEL = 'online monitor with an executable reference model over random histories of the real code'

prop('C01', 'Soundings are conserved exactly',
     'After any sequence of adding, removing and re-adding containers, gridding, saving and loading, the soundings held by the tiles of a grid are exactly the multiset of '
     'soundings of the containers that were added and not removed, every field bit for bit. The reported point count and emptiness always agree with that multiset.',
     [H, I, C], 'every history of add/remove/re-add/grid/save/load, every sounding set with finite coordinates, all grid types and backends',
     'the tests add one or two hand made point sets; conservation quantifies over all histories and point positions (edges, duplicates, single points)',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grids.py', 'bathygrid/backends.py'],
     [('binning of points to tiles', 'utilities.py bin2d_with_indices, bgrid.py _add_points_to_tiles'), ('tile add/remove', 'tile.py SRTile.add_points/remove_points')],
     MODEL, 'held on the histories that were driven; trusts numpy for the comparison')
prop('C02', 'Every sounding sits in the one tile that covers it',
     'A sounding is stored in the tile whose half open square (lower edges included, upper edges excluded) contains it, tiles form a contiguous lattice aligned to the grid '
     'origin, and no tile exists without soundings. When added soundings fall outside the extents the grid grows by whole tiles, keeps every existing tile in place, and '
     'the extents, edges, width, height and tile count stay consistent with each other and contain all soundings.',
     [H, I, C], 'every sounding position, including on and one representable number beside tile and cell edges, negative coordinates and non zero origins, every growth direction and order',
     'tests use a single lattice of points and three growth cases; placement errors appear only at particular positions and growth orders',
     ['bathygrid/grids.py', 'bathygrid/bgrid.py', 'bathygrid/utilities.py'],
     [('extent adjustment', 'grids.py _adjust_extents/_build_grid/_update_extents'), ('existing tile mask', 'bgrid.py _update_tiles'), ('binning', 'utilities.py bin2d_with_indices')],
     'structural invariant monitor at every quiescent state over random growth histories', 'held on the observed states; positions are sampled with emphasis on boundaries')
prop('C03', 'Containers can be told apart and removed exactly',
     'In every tile the recorded container ranges partition the soundings of the tile and each range holds exactly the soundings of that container. Removing a container removes '
     'exactly its soundings and its entries everywhere and leaves all other containers and their file lists untouched; removing an unknown container changes nothing.',
     [H, I, C], 'every order of adding, removing and re-adding overlapping containers, across gridding and reloads',
     'tests remove one or two containers in one order; off by one range bookkeeping shows only in later removals of other containers',
     ['bathygrid/tile.py', 'bathygrid/bgrid.py'],
     [('container index ranges', 'tile.py SRTile.add_points/remove_points'), ('container dictionaries', 'bgrid.py _update_metadata/remove_points')],
     MODEL, 'held on the histories that were driven')
prop('C04', 'Mean gridding gives the mean of the soundings in each cell',
     'With the mean algorithm every populated cell of every tile holds the arithmetic mean of depth, vertical and horizontal uncertainty of exactly the soundings that fall in the '
     'cell (rounded to the millimeter), and every other cell is empty. Uncertainty layers exist exactly when the soundings carry that uncertainty, and layers keep the values of the last '
     'gridding until the tile is gridded again.',
     [I, H, C], 'every set of soundings, resolution, grid type, and history of additions, removals, updates and reloads before gridding',
     'tests compare a few cells of one synthetic plane; the claim is about each cell for all inputs and regridding histories',
     ['bathygrid/algorithms.py', 'bathygrid/tile.py'],
     [('mean kernel', 'algorithms.py np_grid_mean'), ('cell index cache', 'tile.py SRTile.grid (cell_indices)')],
     'cell by cell comparison with a float64 reference gridding after every operation', 'tolerance: half a millimeter plus float32 accumulation error')
prop('C05', 'Shoalest gridding gives the shoalest sounding of each cell',
     'With the shoalest algorithm every populated cell holds the smallest depth of the soundings in the cell (rounded to the millimeter), and the vertical and horizontal uncertainty of '
     'one and the same sounding that has that depth. Every other cell is empty.',
     [I, H, C], 'every set of soundings including ties, negative depths and repeated positions, every resolution, grid type and history',
     'tests use soundings whose uncertainty equals the depth order, so a mismatched uncertainty cannot show',
     ['bathygrid/algorithms.py', 'bathygrid/tile.py'],
     [('shoalest kernel', 'algorithms.py np_grid_shoalest'), ('cell index cache', 'tile.py SRTile.grid (cell_indices)')],
     'cell by cell comparison with a reference gridding that keeps all attaining soundings', 'positive up (height) references are a recorded known finding')
prop('C06', 'Density and coverage account for every sounding',
     'The density of each cell is the number of soundings that were gridded into it, so the density of a tile adds up to its soundings. Cell counts, density lists (per cell, per square '
     'meter, versus depth), coverage area, layer names and layer value lists equal what follows from the populated cells of all tiles and resolutions.',
     [I, H, C], 'every set of soundings, resolutions, multi resolution grids, backscatter grids, after add/remove/reload',
     'tests check the statistics on one synthetic grid in which all densities are equal',
     ['bathygrid/tile.py', 'bathygrid/bgrid.py', 'bathygrid/algorithms.py'],
     [('statistics properties', 'tile.py SRTile.cell_count/density_*, bgrid.py BathyGrid.cell_count/density_*'), ('density layer', 'algorithms.py')],
     'conservation monitor: statistics recomputed from the reference model', 'held on the observed grids')
prop('C07', 'The gridded result does not depend on the history',
     'After any history of adding, removing and re-adding containers with updates and full griddings in between, a final gridding (full or update, same algorithm and resolution setting) '
     'gives the same populated cells with the same values as gridding, from scratch and in any order, a new grid that only ever got the surviving containers. Gridding again without a change '
     'gives the same result.',
     [H, C], 'every history, every order of additions, all grid types and backends',
     'tests never compare an updated grid with one built from scratch', ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/backends.py'],
     [('update mode', 'bgrid.py _grid_regular'), ('point_count_changed', 'tile.py'), ('cell_indices cache', 'tile.py SRTile.grid')],
     'metamorphic oracle: history versus from scratch run of the real code', 'which of equally shoal soundings lends its uncertainty is not compared across orders')
prop('C08', 'Update grids exactly the tiles that changed',
     'A tile reports changed soundings if and only if soundings were added to or removed from it since it was last gridded, also across save and load. Gridding in update mode recomputes '
     'exactly those tiles, leaving them with only the new result, and does not recompute any other tile; with clear existing it recomputes all.',
     [H, C], 'every pattern of changed and unchanged tiles, every position of a changed tile among the others',
     'tests change all tiles or check one; recomputing too much is invisible in values', ['bathygrid/bgrid.py', 'bathygrid/tile.py'],
     [('change flag', 'tile.py point_count_changed'), ('update option', 'bgrid.py _grid_regular/_grid_parallel')],
     'sentinels planted in every layer before the update, model of the change flags', 'held on the observed histories')
prop('C09', 'Parallel gridding equals sequential gridding',
     'Gridding through dask gives the same layers, resolutions, change flags and on disk state as gridding without it, for any number of workers, worker type and order or delay of task '
     'completion.', ['schedules', H, C], 'every completion order of the tile tasks, worker counts, worker processes or threads, number of tiles relative to the workers, full and update mode, all grid types and backends',
     'one test runs dask once on one grid with default workers', ['bathygrid/bgrid.py'],
     [('chunked submission and write back', 'bgrid.py _grid_parallel/_grid_parallel_worker/_gridding_parallel')],
     'differential run of the real code under dask clusters with injected task delays; completion orders recorded', 'the orders that occurred are counted in the evidence')
prop('C10', 'Saving and loading a grid preserves it',
     'A grid that is saved and loaded again, from the same or from another process and any number of times, has the same soundings, containers, layers, resolutions, change flags and '
     'metadata, and continues to behave like the grid that was saved: further additions, removals and griddings give the same results.',
     [H, C, I], 'every reachable state of a grid, both backends and grid types, saving to a new folder, over an existing one, and in place',
     'tests save one gridded state and compare selected attributes', ['bathygrid/backends.py', 'bathygrid/convenience.py'],
     [('tile and grid serialisation', 'backends.py _save_tile_data/_load_tile_data/_save_bathygrid_metadata')],
     'differential monitor: observation before saving versus after loading, then lock step continuation', 'held on the observed states')
prop('C11', 'A grid with a folder is durable after every operation',
     'When a grid has an output folder, the folder mirrors the grid after every completed operation: a process that opens it, also after the writing process was killed between operations, finds '
     'exactly the soundings, containers, layers, change flags and metadata of the last completed operation.',
     ['crash_points', H, C], 'a kill after any completed operation of any history, both backends and grid types',
     'tests never load from another process or after a kill', ['bathygrid/backends.py', 'bathygrid/bgrid.py'],
     [('flush after each tile and each operation', 'bgrid.py _add_points_to_tiles/remove_points/_grid_regular with backends.py _save_tile/_save_grid')],
     'fault enumeration: SIGKILL at every operation boundary of random histories, recovered state versus the model', 'a kill within an operation is not claimed', level='fault_enumeration')
prop('C12', 'Storage backend and storage medium do not change results',
     'The same history driven through the numpy and the zarr backend, in memory and on disk, gives the same soundings, containers, layers, resolutions, extents and answers to queries at every step.',
     [C, H], 'every history, both backends, memory and disk', 'tests run each backend on its own fixtures', ['bathygrid/backends.py', 'bathygrid/maingrid.py'],
     [('backends', 'backends.py NumpyGrid/ZarrGrid')], 'lock step differential monitor over four instances of the real code', 'held on the observed histories')
prop('C13', 'Tiling does not change the gridded result',
     'For the same soundings, algorithm and resolution, the populated cells, their values and densities are the same for every tile size, subtile size and grid type, in the tiles '
     'and in the retrieved surface.', [C, I], 'every tile size, subtile size and grid type for the same soundings', 'tests fix tile sizes per fixture',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grids.py'], [('tile lattice aligned to the cell lattice', 'grids.py _adjust_extents, tile.py new_grid')],
     'metamorphic oracle over pairs of configurations', 'held on the observed configurations')
prop('C14', 'Automatic resolution follows the depth and density rules',
     'Without an explicit resolution, each tile of a variable resolution grid is gridded at the resolution the depth lookup gives for the mean depth of its soundings, or the density rule for their '
     'density, and a single resolution grid at the lookup resolution of the mean depth of all soundings, or the coarsest density resolution of its tiles; never coarser than the tile and always '
     'a power of two. With an explicit resolution exactly that resolution is used everywhere, and the reported resolutions are exactly those in the tiles.',
     [I, C, H], 'every depth (including negative and beyond the lookup), density, tile size and prior history', 'tests check a handful of depths in the middle of bands',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/grid_variables.py'], [('lookup and density estimate', 'tile.py resolution_by_density/_calculate_resolution_lookup, bgrid.py')],
     'independent evaluation of the documented rule per tile', 'next to a band boundary both neighbours are accepted')
prop('C15', 'Retrieved layers are georeferenced to the soundings',
     'The layer arrays, trimmed arrays, node coordinates, cell boundaries and per tile data a grid returns put each populated cell at the location of its soundings, contain every populated cell of '
     'the requested resolution exactly once and the nodata value everywhere else. This holds for one or several layers, whichever tiles exist at that resolution.',
     [I, C, H], 'every set of populated tiles, partial multi resolution coverage, layer lists, nodata values', 'tests check shapes and a few values on a full rectangular grid',
     ['bathygrid/bgrid.py', 'bathygrid/tile.py'], [('layer assembly', 'bgrid.py get_layers_by_name/get_layers_trimmed/return_surf_xyz/get_tiles_by_resolution')],
     'reference model by absolute cell location', 'held on the observed grids')
prop('C16', 'Point queries return the cell value at the location',
     'Querying layer values at x, y locations returns, for each location, the value of the cell that contains it at the requested resolution, or at the finest resolution that has a value there when '
     'none is requested, and the nodata value elsewhere, in the order of the locations and for scalars and arrays alike.',
     [I, C], 'every location (inside, on cell edges, outside the extents), layer, resolution set', 'tests query two locations', ['bathygrid/bgrid.py'],
     [('digitize on trimmed surface', 'bgrid.py layer_values_at_xy/_validate_layer_query')], 'reference model by absolute cell location', 'held on the observed queries')
prop('C17', 'Chunks cover the grid exactly once, with the right georeference',
     'Splitting a grid in to chunks gives, for every chunk size, chunks no larger than allowed (or one tile), and no more of them than that size needs, whose arrays and geotransforms put every populated cell of the resolution at its true location '
     'exactly once, with nodata elsewhere and the reported dimension matching the arrays.',
     [I, C], 'every layout of tiles, chunk size, layer list, nodata value, resolution present in some tiles only', 'tests use one full grid and two chunk sizes', ['bathygrid/bgrid.py'],
     [('chunking', 'bgrid.py get_chunks_of_tiles/_tile_chunk_indices/_finalize_chunk/_split_to_approx_shape')], 'exactly once monitor over absolute cell locations', 'held on the observed chunkings')
prop('C18', 'GeoTIFF exports contain the grid',
     'The GeoTIFF files written for a grid contain, read back, every populated cell of the exported resolutions exactly once at its location with the gridded values, nodata elsewhere, band names and coordinate system of the grid, and '
     'depth or elevation sign as requested; a file that exists at the output path that is given is left alone.',
     [I, C], 'every grid, chunk size, resolution selection and sign option', 'the tests check that a file with the right shape appears', ['bathygrid/bgrid.py', 'bathygrid/utilities.py'],
     [('export', 'bgrid.py _export_geotiff, utilities.py gdal_raster_create')], 'files read back and compared with the reference model by location', 'held on the observed exports; trusts GDAL to read')
prop('C19', 'BAG exports contain the grid and its metadata',
     'The BAG files written for a grid contain, read back, the elevation (positive up) and uncertainty of every populated cell exactly once at its location and nodata elsewhere, with minimum and maximum attributes of the '
     'valid cells, the time span of the data and a positive up vertical coordinate system.',
     [I, C], 'every grid, chunk size, time range, sign of depth', 'the tests check that a file with the right shape appears', ['bathygrid/bgrid.py', 'bathygrid/utilities.py'],
     [('export', 'bgrid.py _export_bag/_correct_for_layer_metadata/_set_temporal_extents')], 'files read back and compared with the reference model by location', 'held on the observed exports; trusts GDAL and h5py to read')
prop('C20', 'CSV exports contain the grid',
     'The CSV written for a resolution has, for every populated cell, one row with the coordinates of the cell center and the values of all layers under the matching header names, with elevation positive up or depth '
     'positive down as requested.', [I, C], 'every grid, layer set, resolution selection and sign option', 'the tests check the first rows of one export', ['bathygrid/bgrid.py'],
     [('export', 'bgrid.py _export_csv')], 'file parsed and compared with the reference model by location', 'held on the observed exports')
prop('C21', 'Sign conventions are consistent everywhere',
     'Layers, per tile data, chunks and exports return depth positive down by default and elevation positive up on request, for data with a positive down reference as well as a height (positive up) reference; only '
     'the depth layer changes sign, and asking twice gives the same answer.',
     [I, C], 'both vertical reference directions, every retrieval and export path, negative and positive values', 'tests only use a positive down reference', ['bathygrid/bgrid.py', 'bathygrid/tile.py'],
     [('sign handling', 'bgrid.py get_tile_data, tile.py get_layers_by_name')], 'cross path consistency monitor', 'held on the observed grids')
prop('C22', 'A rejected operation leaves no trace',
     'Adding a duplicate container, another coordinate system or vertical reference, unusable times, soundings that are malformed, empty, have non finite positions or other variables than the soundings of the tiles they fall in, and '
     'gridding with invalid options (resolution, algorithm or mode) or an algorithm that is not available, is refused with an exception. A refused operation leaves soundings, containers, layers, metadata and disk as they were, and the grid can be used normally afterwards.',
     [I, H, 'fault_sequences'], 'every invalid request in every reachable state', 'tests check that some exceptions are raised, not the state afterwards', ['bathygrid/bgrid.py'],
     [('validation before mutation', 'bgrid.py add_points/_validate_input_data/_update_metadata/grid')], 'before/after state comparison in memory and on disk', 'held on the observed requests', level='fault_enumeration')
prop('C23', 'Grid metadata reflects the data that was added',
     'Time range, coordinate system, vertical reference, file lists, container listing, mean depth, attribution and summary of a grid always reflect the containers added so far: the time range spans all times provided, the mean depth is '
     'the mean of all soundings in the grid (to the millimeter), and every container is reported with its own file list.',
     [H, I, C], 'every sequence of additions and removals with and without times and file lists, across reloads', 'tests check one sequence', ['bathygrid/bgrid.py', 'bathygrid/utilities.py'],
     [('metadata', 'bgrid.py _update_metadata/_update_mean_depth/return_attribution')], MODEL, 'held on the observed histories; the time range does not shrink on removal')
prop('C24', 'Creating and opening folders never harms or misreads a grid',
     'Creating a grid with invalid options is refused and leaves nothing behind. Creating a grid never alters an existing grid or foreign files on disk, and supports absolute and relative folders; a folder is opened as a '
     'grid exactly when it contains one grid root, with the grid type that was created, and is not recognised as a grid when it contains none.', [I, C, H], 'every option combination and folder layout', 'tests use fresh absolute folders', ['bathygrid/convenience.py', 'bathygrid/utilities.py'],
     [('validation', 'convenience.py _validate_create_options/_validate_load_path, utilities.py create_folder')], 'folder tree digests before and after, type and state of what is opened', 'held on the observed layouts')
prop('C25', 'Transient permission errors lose nothing',
     'When deleting stored arrays or tiles fails with transient permission errors, as with another process holding the file, operations retry and end in the same in memory and on disk state as without the errors; an error that persists is reported.',
     ['fault_sequences', H, C], 'every pattern of transient permission errors up to the retry limit, at every deletion', 'no test injects errors', ['bathygrid/utilities.py', 'bathygrid/backends.py'],
     [('retry', 'utilities.py remove_with_permissionserror')], 'fault injection at the operating system deletion calls, differential with a fault free run', 'errors injected at os/shutil level', level='fault_enumeration')
prop('C26', 'Querying one container grids exactly its soundings',
     'Asking for the layer named after a container returns the surface gridded, with the algorithm and resolution in use, from the soundings of that container only, for all tiles; and the standard layers are not affected by the query.',
     [I, H, C], 'every overlap of containers, algorithm, resolution and grid type', 'tests query one container on one grid', ['bathygrid/tile.py', 'bathygrid/bgrid.py'],
     [('container query', 'tile.py get_layers_by_name/_grid_algorithm_initialize')], 'reference model per container', 'held on the observed queries')
prop('C27', 'Slope layers are the best fit plane of each cell',
     'The x and y slope layers hold, for every cell whose soundings determine a plane, the gradient of the least squares plane through them regardless of the magnitude of the coordinates, and follow changes of the soundings.',
     [I, H], 'every plane, coordinate magnitude, history', 'the test uses small coordinates', ['bathygrid/algorithms.py', 'bathygrid/tile.py'], [('plane fit', 'algorithms.py calculate_slopes')],
     'comparison with planted planes and a float64 least squares fit', 'cells with fewer than three or collinear soundings are not compared')
prop('C28', 'Backscatter grids behave like depth grids with intensity',
     'A backscatter grid of any type and backend has an intensity layer where a depth grid has depth, with the same values, unaffected by sign options, in tiles, retrieval, statistics and GeoTIFF, also after a reload; a BAG export is refused.',
     [C, I, H], 'all grid types and backends, memory, disk and reload', 'tests cover single resolution in memory', ['bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/maingrid.py'], [('depth key', 'bgrid.py/tile.py depth_key')],
     'differential monitor against the depth grid of the same soundings', 'held on the observed grids')
prop('C29', 'Neighbour queries return the adjacent tiles and border soundings',
     'The neighbours of a tile are the tiles that share an edge with it, in the documented order with none where there is no tile, and the neighbour points are exactly the soundings of those tiles within the buffer distance of the shared edge.',
     [I, C], 'every layout of tiles, tile position, buffer, grid type', 'tests use one layout', ['bathygrid/bgrid.py'], [('neighbours', 'bgrid.py get_tile_neighbors/get_tile_neighbor_points')],
     'reference model by tile location', 'held on the observed layouts')
prop('C30', 'CUBE gets the right soundings and its answer lands in the right cells',
     'Gridding with CUBE runs the kernel once for each tile that is gridded, with the soundings of the tile plus those of the adjacent tiles close to the shared border (a tenth of the tile width), with matching depths, uncertainties and coordinates, and with the '
     'corner, resolution and options of the tile. Depth, uncertainty, hypothesis count and ratio of every node end up in the cell at that location, density counts the soundings of the tile only, and soundings without both uncertainties are refused with the grid unchanged. '
     'Retrieved layers, chunks, point queries, statistics and exported files of a CUBE grid (with total uncertainty as the uncertainty) show these cells.', [I, C], 'every layout of tiles, grid type, option set and resolution', 'the CUBE tests cannot run here, and never look at what is handed over', ['bathygrid/algorithms.py', 'bathygrid/tile.py', 'bathygrid/bgrid.py'],
     [('CUBE hand off', 'tile.py _run_cube_grid, algorithms.py nb_cube')], 'recording stand-in for the CUBE kernel, calls checked against the model', 'the CUBE kernel itself is not part of this repository')
prop('C31', 'Input form does not matter and inputs are left alone',
     'Soundings given as numpy structured array, dask array or xarray dataset, with fields in any order, give the same grid; the arrays and lists handed in are never modified, and changing them afterwards does not change the grid.',
     [I, C], 'all input forms, field orders and dtypes', 'tests use each form once and never look at the input afterwards', ['bathygrid/bgrid.py', 'bathygrid/tile.py'], [('conversion', 'bgrid.py _convert_dataset/_validate_input_data/add_points')],
     'differential monitor over input forms, digests of the inputs', 'held on the observed inputs')
prop('C32', 'Plots show the grid',
     'A map plot draws every populated cell of the resolutions it is asked for at its location with its value and nothing else, histograms count every populated cell of all tiles and resolutions once in the bin of its value, and the density '
     'curves are the averages of the cells in each depth bin. The tile boundaries returned for drawing outline every tile.',
     [I, C, H], 'every grid state, layer, resolution and number of bins', 'the tests do not draw anything', ['bathygrid/bgrid.py'],
     [('plots', 'bgrid.py plot/plot_*_histogram/plot_density_vs_depth/get_tile_boundaries')], 'artists read back from the axes of the real plots and compared with the reference model by location', 'held on the observed plots')
prop('C33', 'Reading never changes the grid',
     'Retrieving layers, statistics, attribution, queries, neighbours, plots and exports in any order changes neither soundings, layers, containers, change flags and metadata of the grid nor the files of the grid on disk. '
     'Arrays and lists that are handed out belong to the caller, changing them does not change the grid.',
     [H, C], 'every order of read operations on every reachable state', 'tests never compare the state around reads', ['bathygrid/bgrid.py', 'bathygrid/tile.py'], [('copies on retrieval', 'tile.py get_layers_by_name')],
     'before/after state and disk digests around random reads', 'held on the observed reads')
prop('C34', 'Grids do not influence each other',
     'Any number of grids of any type, in one process and in neighbouring folders, can be used alternately or at the same time from different threads. An operation on one grid changes no other grid and none of its files, and every '
     'grid holds exactly what its own history gives, also when containers of different grids have the same name.',
     [H, 'schedules', C], 'every interleaving of operations on several grids', 'tests use one grid at a time', ['bathygrid/grids.py', 'bathygrid/bgrid.py', 'bathygrid/tile.py', 'bathygrid/backends.py'],
     [('state of a grid', 'grids.py BaseGrid/TileGrid, bgrid.py BathyGrid.__init__')], 'bystander state and folder digests around every operation, reference model per grid after concurrent threads',
     'one thread for each grid; a grid is not shared between threads')
prop('C35', 'Folders with grid metadata in the older form open the same',
     'A folder in which the tile origins, tile edges and tile mask of the grids are stored as lists in metadata.json, as versions before 1.1.2 did, opens as the same grid: soundings, containers, layers, extents and metadata are those of '
     'the grid that was stored, and it can be extended, gridded and opened again like any other.',
     [H, C], 'every state of a grid stored in the older form', 'no test has an older folder', ['bathygrid/backends.py'], [('older form', 'backends.py _load_bathygrid_metadata')],
     'differential with the grid that was stored, before and after continuing with both', 'the older form is written from the comment and the loader in the code, no folder of an older version is at hand')

prop('C36', 'Operations that fail while writing can be repeated',
     'When writing to the folder of a grid fails (disk full, input/output error, out of memory, ctrl-c) during an addition, removal, gridding or save, the caller gets an exception unless the error did no harm, and no sounding of a container that was not '
     'being added or removed is missing afterwards. Repeating it once writing works again gives the grid and the folder that a run without the error gives, an update gridding included; an addition is repeated after its '
     'container was removed, which leaves the grid as it was before.',
     ['fault_sequences', H, C], 'every write of every such operation, every kind of error, errors that recur, on every reachable state of a grid in a folder', 'the tests never let a write fail', ['bathygrid/bgrid.py', 'bathygrid/backends.py', 'bathygrid/tile.py'],
     [('order of changes in memory and on disk', 'bgrid.py add_points/remove_points/grid, backends.py _save_tile/_save_tile_data/_load_tile')],
     'fault injection from interpreter audit events at writes of the real operations, repeated operation compared with a run without errors',
     'errors at the opening, creation and renaming of files and folders; a short write within a file is not injected', level='fault_enumeration')
prop('C37', 'Soundings in the folder survive operations that are cut short',
     'When the process ends at any point of a gridding, every sounding that was stored is still in the folder of the grid, exactly once. When it ends during an addition or removal, at most the soundings of the one tile that was being written are gone, '
     'for an addition never those of a tile that gets no soundings. Grids in neighbouring folders do not change.',
     ['crash_points', H, C], 'every point at which an addition, removal or gridding changes the file system, on every reachable state', 'the tests never end a process', ['bathygrid/bgrid.py', 'bathygrid/backends.py', 'bathygrid/maingrid.py'],
     [('what is rewritten by an operation', 'backends.py _save_tile, bgrid.py _grid_regular/_add_points_to_tiles/remove_points')],
     'crash enumeration: everything after a chosen change of the file system is suppressed or the process exits there, soundings collected from the stored arrays',
     'whether the folder can be opened as a grid after such an end is not claimed, it often can not', level='fault_enumeration')

NOT_BUILT = []


def main():
    import sys
    built = None
    env = os.environ.get('BUILT')
    if env:
        built = env.split(',')
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if built and p['id'] not in built:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        cmd = '/opt/venv/bin/python check.py {} --tier {}'
        checks.append({'property': p['id'], 'quick_cmd': cmd.format(p['id'], 'quick'), 'thorough_cmd': cmd.format(p['id'], 'thorough'),
                       'evidence_file': 'evidence/{}.json'.format(p['id']), 'technique': 'runtime monitoring: ' + p['technique'], 'level': p['level'],
                       'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup_check.py', 'checks': checks, 'not_applicable': na,
                   'notes': 'Pure Python under test, imported from /repo as it is: nothing is built, no hooks are added to the repository.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
