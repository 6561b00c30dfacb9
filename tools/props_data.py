P('C01', 'Orthorectification result is independent of tile thread scheduling',
  'For the same inputs and options, orthorectifying an image writes an output file with identical pixels, masks and '
  'metadata whatever the order and interleaving in which its tiles are computed and written by worker threads. No '
  'interleaving deadlocks, raises an error, or lets two threads operate on one open dataset at the same time.',
  ['schedules'], 'every interleaving of the worker threads, for every camera type, per-band or all-band processing, '
  'with and without mask writing',
  'The tests run each configuration once, under whichever schedule the OS happened to choose.',
  ['orthority/ortho.py', 'orthority/camera.py'],
  [('write lock around tile write & mask write', 'Ortho._remap_tile'), ('per-tile local arrays', 'Camera.remap'),
   ('bands processed in sequence', 'Ortho._remap')],
  'stateless model checking of the real code under a controlled scheduler (deviation-bounded schedules)',
  'model_checking',
  'All schedules with <= 1 deviation at source-line granularity and <= 2 (quick) / 3 (thorough) at synchronisation / '
  'I/O granularity from run-to-block order, 2-3 workers; native calls are atomic.')

P('C06', 'A frame camera\'s results depend only on its current parameters',
  'After any sequence of exterior parameter updates, distortion and alpha setting changes, reads, remaps, projections '
  'and boundary queries, a frame camera gives the same results as a camera newly created with its current parameters '
  'and settings. None of these calls modifies the arrays passed to it, and using a camera before its exterior '
  'parameters are set is reported as an initialisation error.',
  ['histories', 'configurations'], 'every sequence of operations up to the depth bound, for every frame camera type',
  'Tests exercise one setter or call at a time on a fresh camera; cached undistortion maps and intrinsic matrices make '
  'results depend on the order of calls.',
  ['orthority/camera.py'],
  [('undistort map cache & its invalidation', 'FrameCamera.alpha setter, FrameCamera._undistort_im'),
   ('exterior parameters', 'FrameCamera.update')],
  'explicit-state exploration of operation histories on the real object, oracle = freshly built object',
  'model_checking', 'All histories up to the depth bound over an alphabet covering every public method and setter.')

P('C08', 'Frame camera projections follow the documented models and invert',
  'For every frame camera type, world to pixel projection agrees with the published model (omega-phi-kappa exterior '
  'orientation, pinhole, Brown, general OpenCV or fisheye distortion, pixel-centre image coordinates, principal point '
  'offset and focal length in sensor or normalised units). Projecting pixels back to given heights is its exact '
  'inverse, for scalar and array heights, and with distortion excluded both describe the undistorted image returned '
  'by reading through the camera, with the scaling that the alpha setting documents.',
  ['inputs', 'configurations'], 'every combination of camera type, image shape, focal length form, sensor size, '
  'principal point, pose, coefficients, distortion setting and alpha in the configuration lattice',
  'Tests use one or two poses and landscape images with square pixels; errors confined to combinations of parameters '
  'go unseen.',
  ['orthority/camera.py'],
  [('intrinsic matrix', 'FrameCamera._get_intrinsic'), ('exterior', 'FrameCamera._get_extrinsic'),
   ('distortion', '_camera_to_pixel / _pixel_to_camera of each model')],
  'exhaustive enumeration of a bounded configuration space, conformance of the implementation to an independent '
  'reference model', 'model_checking',
  'Every configuration with <= 3 (quick) / 4 (thorough) dimensions away from default, each over a pixel x height grid; '
  'trusts the reference model in mc/ref/cam.py.')

P('C09', 'RPC camera projections follow the RPC model and invert',
  'RPC camera world to pixel projection equals the standard RPC00B rational polynomial model evaluated on the point\'s '
  'WGS84 geographic coordinates and ellipsoidal height, for any world CRS with ellipsoidal height in metres, and '
  'pixel to world projection is its inverse at every given height. Undefined (NaN) coordinates stay undefined without '
  'affecting others, inputs are not modified, and a CRS with another vertical datum or unit is rejected.',
  ['inputs', 'configurations'], 'all RPC coefficient positions, CRSs, broadcasting forms and NaN patterns in the lattice',
  'Tests use one RPC whose small coefficients hide errors in most polynomial terms.',
  ['orthority/camera.py'], [('polynomial evaluation', 'RpcCamera.world_to_pixel'), ('inverse', 'RpcCamera.pixel_to_world_z'),
                            ('CRS validation', 'RpcCamera._validate_crs')],
  'exhaustive enumeration of a bounded configuration space, conformance to an independent reference model',
  'model_checking', 'All configurations within 3 (quick) / 4 deviations; trusts the reference RPC model and PROJ.')

P('C10', 'Every ortho pixel shows the source at its ground point; the footprint is covered',
  'Each valid ortho pixel holds the interpolated source image value at the camera projection of the pixel centre\'s '
  'ground coordinate, with height taken from the selected DEM band at that coordinate and converted from the DEM\'s '
  'CRS, vertical datum and units to those of the ortho. All ground that the source images and the DEM validly covers '
  'is inside the ortho bounds and valid, ground outside the source or the valid DEM is nodata, and the requested (or '
  'an automatic, about source-equivalent) resolution is used.',
  ['inputs', 'configurations'], 'every combination of camera, distortion mode, interpolation, DEM interpolation, data '
  'type, resolution, DEM CRS / datum / unit / nodata / coverage / altitude, pose, image shape and output layout within '
  'the deviation bound, and every pixel of each output',
  'The tests compare an ortho with itself under other settings or check summary statistics on a few scenes; they never '
  'decode where each pixel came from.',
  ['orthority/ortho.py', 'orthority/camera.py', 'orthority/common.py'],
  [('DEM window, crop & scaling', 'Ortho._get_init_dem'), ('DEM reprojection', 'Ortho._reproject_dem'),
   ('ortho bounds', 'Ortho._mask_dem'), ('tile grids', 'Ortho._remap_tile'), ('remap', 'Camera.remap')],
  'exhaustive enumeration of a bounded configuration space; every output pixel decoded and compared with an '
  'independent projection', 'model_checking',
  'All configurations within 2 (quick) / 3 deviations of the default scene plus neighbourhoods; tolerance 0.05-0.2 '
  'pixel; DEM resampling checked on analytic surfaces.')

P('C19', 'RPC refinement and exterior fitting recover the model behind the GCPs',
  'Refining RPC parameters with GCPs gives the RPC model whose projections are the least squares fit of a per-axis '
  'shift, or shift and scale, to the GCPs, changing nothing but the numerator coefficients; too few GCPs are rejected. '
  'Fitting frame camera exteriors to GCPs generated by a known pose recovers that pose for every frame camera type, '
  'image and GCP CRS. Neither modifies the parameters or GCPs passed to it.',
  ['inputs', 'configurations'], 'every method, GCP count, bias, noise, camera type, pose, CRS and interior form in the lattice',
  'Tests fit one or two pinhole scenes and compare RPC refinement with a tolerance on one image.',
  ['orthority/fit.py'], [('refinement', 'refine_rpc'), ('exterior fit', 'fit_frame_exterior')],
  'exhaustive enumeration of a bounded problem space against an independent closed-form solution', 'model_checking',
  'All problems within 3-4 (quick) / 5-6 deviations; trusts the reference models; GCPs well distributed.')

P('C11', 'Ortho content does not depend on output layout or processing history',
  'With lossless compression, the pixels, validity, bounds and georeferencing of an ortho are the same for every '
  'output driver, block layout, interleaving, compression, band-by-band or all-band processing, internal mask or '
  'nodata masking, overview, progress and output file argument form. Processing again with one orthorectifier object, '
  'after any sequence of earlier process calls with other options, gives the result of a new object.',
  ['configurations', 'histories'], 'every scene and layout within the deviation bounds, and every sequence of process '
  'calls up to the depth bound over an alphabet of option changes',
  'Tests compare two or three layouts on one scene; tile edge handling and state kept between calls depend on '
  'combinations they do not reach.',
  ['orthority/ortho.py', 'orthority/camera.py', 'orthority/common.py'],
  [('tile windows', 'common.block_windows'), ('tile grid offset', 'Ortho._remap_tile'),
   ('stored DEM, copied before masking', 'Ortho._reproject_dem')],
  'exhaustive enumeration of layouts and bounded call histories on the real code, oracle = reference layout / fresh object',
  'model_checking', 'Scene and layout deviations <= 2 (quick) / 3; call histories of depth 2 (quick) / 3; known '
  'tile-edge dilation findings are listed in known_findings.json.')

P('C02', 'Pan-sharpening result is independent of thread scheduling',
  'For the same inputs and options, pan-sharpening writes an output file with the same validity and metadata, and the '
  'same pixel values up to floating point summation order, whatever the order and interleaving in which statistics '
  'and output tiles are processed by worker threads. No interleaving deadlocks, raises an error, or lets two threads '
  'operate on one open dataset at the same time.',
  ['schedules'], 'every interleaving of the worker threads in the statistics and sharpening steps, with several tiles in each',
  'The tests run images smaller than one statistics tile, once, under whichever schedule the OS happened to choose.',
  ['orthority/pan_sharp.py'],
  [('dataset locks', 'PanSharpen._pan_lock / _ms_lock / _out_lock'), ('order independent aggregation', 'PanSharpen._get_stats'),
   ('tile processing', 'PanSharpen._process_tile')],
  'stateless model checking of the real code under a controlled scheduler (deviation-bounded schedules)', 'model_checking',
  'All schedules with <= 1 deviation at source-line granularity and <= 2 (quick) / 3 (thorough) at synchronisation / I/O '
  'granularity from run-to-block order, 2-3 workers; native calls are atomic.')

P('C18', 'Pan-sharpened pixels follow Gram-Schmidt substitution on the pan grid',
  'Pan-sharpening writes the selected multispectral bands, in the order selected, on the pan pixel grid cropped to the '
  'intersection of the pan and multispectral bounds (matching bounds when either is not georeferenced). Each pixel is the '
  'Gram-Schmidt result: the interpolated multispectral value, plus the normalised pan minus simulated pan difference, scaled '
  'by the band\'s regression on the simulated pan, with statistics over jointly valid multispectral resolution pixels and '
  'given or estimated non-negative weights. Values are rounded and clipped to the output data type, pixels masked in either '
  'image are nodata, and invalid indexes, weights, resolutions and non-overlapping bounds are rejected before any file is made.',
  ['inputs', 'configurations'], 'every band count, band selection, weighting, content, data type, mask type, resolution '
  'ratio, extent, georeferencing, interpolation, layout and call order within the deviation bound, and every pixel',
  'Tests check statistics and transforms separately on one image pair, and do not compare output pixels with the definition.',
  ['orthority/pan_sharp.py', 'orthority/common.py'],
  [('shared bounds', 'PanSharpen._get_vrt_profiles'), ('statistics', 'PanSharpen._get_stats'),
   ('parameters', 'PanSharpen._get_params'), ('tile', 'PanSharpen._process_tile'), ('rounding', 'common.convert_array_dtype')],
  'exhaustive enumeration of a bounded configuration space; every output pixel compared with a closed-form reference',
  'model_checking', 'All configurations within 2 (quick) / 3 deviations; trusts GDAL resampling kernels.')

P('C12', 'Output images have the documented format, masking and overviews',
  'Ortho and pan-sharpened images are GeoTIFFs or COGs with the requested or documented default data type, compression, '
  'tiling, creation options and colour interpretation, an internal mask without nodata when a mask is requested or JPEG is '
  'used by default, and otherwise the data type\'s nodata value. Overviews are halved averages of the finished image down to '
  'the documented size. Invalid or unsupported data types, drivers and compression are rejected before any file is created.',
  ['inputs', 'configurations'], 'every combination of source type, data type, band count, colours, driver, compression, mask, '
  'creation option, overview, size and GDAL setting within the deviation bound, with every pixel\'s validity',
  'Tests check the generated profile for a few combinations; what ends up in the file for others is not inspected.',
  ['orthority/common.py', 'orthority/ortho.py', 'orthority/pan_sharp.py'],
  [('profile', 'common.create_profile'), ('overviews', 'common.build_overviews'), ('output set-up', 'Ortho.process, PanSharpen.process')],
  'exhaustive enumeration of a bounded option space against the outcome derived from the documented rules', 'model_checking',
  'All option combinations within 2 (quick) / 3 deviations; 12 bit JPEG not judged.')

P('C04', 'A failed read, write or computation is reported, cleaned up and can be retried',
  'If any dataset open, read, warp, remap, write, mask write or overview build fails while an Ortho or PanSharpen object is '
  'being constructed or run, in any thread and at any point of any schedule, the call raises an exception that carries the '
  'original error; it never returns as if the image were complete, and never deadlocks. When it raises, its worker threads '
  'have stopped, every file it opened is closed, and datasets supplied by the caller are still open. Calling process() again '
  'on the same object with overwrite=True then produces the same image as if nothing had failed.',
  ['faults', 'schedules'], 'every operation that can fail, as the one that fails, before or after taking effect, crossed with '
  'worker interleavings',
  'The tests never make an operation fail inside a worker thread.',
  ['orthority/ortho.py', 'orthority/pan_sharp.py', 'orthority/common.py'],
  [('tile errors', 'Ortho._remap'), ('tile errors', 'PanSharpen.process'), ('statistics errors', 'PanSharpen._get_stats'),
   ('dataset lifetime', 'common.OpenRaster')],
  'fault enumeration x stateless schedule exploration of the real code', 'model_checking',
  'One fault per execution at every operation; schedules within 1 (quick) / 2 deviations, 2 workers; errors GDAL only logs '
  'at close are not visible.')

P('C03', 'Reading parameters of many images keeps list order and each image\'s own values',
  'Reading EXIF / XMP tags, RPCs or GCPs of a list of images returns, whatever the order and interleaving in which worker '
  'threads read the files, the parameters each file gives when it is read on its own, keyed by file name in list order. If '
  'files can not be read, the error is that of the first such file in the list: FileNotFoundError when it is missing, '
  'ParamError when it has no RPCs or GCPs, and otherwise a RuntimeError that names it. When the call returns or raises, its '
  'threads have stopped, its files are closed, datasets passed in are open, and warning filters are as they were.',
  ['schedules', 'inputs', 'faults'], 'every list of good, missing, unreadable and untagged images up to a length, under every '
  'schedule within a deviation bound', 'Tests read lists of good files under one schedule.',
  ['orthority/param_io.py', 'orthority/exif.py', 'orthority/common.py'],
  [('EXIF', 'ExifReader._read_exif'), ('RPC', 'read_im_rpc_param'), ('GCP', 'read_im_gcps'),
   ('warning filters', 'common.suppress_no_georef')],
  'stateless model checking of the real code under a controlled scheduler, for every bounded list of files', 'model_checking',
  'All lists up to 3 (quick) / 4 files; schedules within 1-2 deviations at line or synchronisation granularity.')

P('C05', 'Existing files are kept unless overwriting is asked for; inputs never change',
  'Writing an ortho or pan-sharpened image, a parameter file, a factory\'s parameters, or running an oty command, to a path '
  'that exists raises FileExistsError (a non-zero exit for oty) and leaves the existing files as they were, unless '
  'overwriting was asked for. With overwriting, or when the path does not exist, exactly the named outputs are written, with '
  'the content a first write to a new path gives, whatever was there before, including a corrupt or truncated file. Calls '
  'rejected because of invalid data type, band or CRS arguments, and refused calls, change nothing; source images, DEMs, '
  'parameter files and other files are never changed.',
  ['histories', 'inputs', 'crashes'], 'every sequence of write operations up to a depth on a path in every initial state and '
  'form of path argument; every subset of outputs already present for each oty command and factory; every truncation of an '
  'earlier output',
  'Tests check one refusal per function on a valid earlier output.',
  ['orthority/common.py', 'orthority/ortho.py', 'orthority/pan_sharp.py', 'orthority/param_io.py', 'orthority/factory.py',
   'orthority/cli.py'],
  [('images', 'common.OpenRaster'), ('text files', 'common.Open'), ('factories', 'FrameCameras.write_param, RpcCameras.write_param'),
   ('CLI', 'cli._ortho, cli.sharpen')],
  'explicit-state exploration of write histories on the real code against a file-tree model', 'model_checking',
  'All histories of 2 (quick) / 3 operations out of 20, 5 initial states, 6 path forms; truncations every 97 (7) bytes; '
  'sidecar files of overwritten images are not judged.')

P('C07', 'A camera factory gives each image the camera of its own parameters',
  'For every sequence of get, refine and write_param calls on a FrameCameras or RpcCameras factory, get(image) returns a '
  'camera that behaves as one created directly from that image\'s interior and exterior (or RPC) parameters and the '
  'factory\'s camera arguments, with every refinement so far applied to RPC models. Images are found by file name, then by '
  'file name without extension, however the image is given; unknown images and cameras are reported as ParamError. '
  'write_param writes the current parameters, with the GCPs of the last refinement. Dictionaries passed in are not changed, '
  'and a failed refinement leaves the factory as it was.',
  ['histories', 'inputs'], 'every sequence of calls up to a depth, over images that share cameras, positions or orientations, '
  'and every form of image argument',
  'Tests get each image once from a fresh factory; cameras are cached and updated in place, so results depend on history.',
  ['orthority/factory.py', 'orthority/common.py'],
  [('frame cameras', 'FrameCameras.get'), ('RPC cameras', 'RpcCameras.get, RpcCameras.refine'), ('export', 'write_param'),
   ('lookup', 'common.get_filename')],
  'explicit-state exploration of call histories on the real factories, oracle = directly built cameras', 'model_checking',
  'All histories of up to 4 (quick) / 5 calls; refine_rpc itself is judged by C19.')

P('C20', 'oty commands do for every image what the documented API calls do',
  'oty frame, exif, odm, rpc and sharpen write, for each source image and nothing else, the file that the API calls with the '
  'equivalent arguments write for that image alone, whatever the other images, their order, wildcards, and earlier commands '
  'in the process; options not given have their documented defaults, and a CRS taken from one image is not used for another. '
  '--export-params writes the factory\'s parameters. Invalid or missing options, files, bands and parameters, and any image '
  'that can not be processed, give a non-zero exit status; images already written are still correct.',
  ['configurations', 'inputs', 'histories'], 'every option value of every command within a deviation bound, source list orders, '
  'batches with a failing image at each position, and pairs of commands',
  'CLI tests check that options reach a mock, or one option at a time on one image.',
  ['orthority/cli.py', 'orthority/factory.py'],
  [('batch loop', 'cli._ortho'), ('option parsing', 'cli._crs_cb, cli._resolution_cb, cli._creation_option_cb, cli._gcp_refine_cb'),
   ('commands', 'cli.frame, cli.exif, cli.odm, cli.rpc, cli.sharpen')],
  'exhaustive enumeration of bounded command lines and batches, differential against the API', 'model_checking',
  'All command lines within 1-2 (quick) / 2 deviations of a default; the API calls themselves are judged by other properties.')

P('C13', 'Parameter files that orthority writes read back as the same parameters',
  'Interior, exterior, RPC and GCP parameters written with write_int_param, write_ext_param, write_rpc_param, write_gcps, or a '
  'factory\'s write_param, are read back by the corresponding reader with the same images and camera IDs, in order, the same '
  'values to the last bit, and an equivalent world CRS; cameras created from the files project as the originals do. Holds for '
  'every camera type and set of optional parameters, for any file name and camera ID text, and for parameters that came from '
  'CSV, OpenSfM, EXIF / XMP, image tags or refinement. Writing does not change the parameters passed in.',
  ['inputs'], 'every bounded combination of camera type, optional parameters, values, names, CRSs and sources',
  'Tests round-trip a handful of ordinary parameter sets.',
  ['orthority/param_io.py', 'orthority/factory.py'],
  [('writers', 'write_int_param, write_ext_param, write_rpc_param, write_gcps'),
   ('readers', 'read_oty_int_param, OtyReader, read_oty_rpc_param, read_oty_gcps'), ('export', 'FrameCameras.write_param, RpcCameras.write_param')],
  'exhaustive enumeration of bounded parameter sets through the real writers and readers', 'model_checking',
  'All single and pairs of optional parameters with 6-13 special numbers, 30 camera IDs and 12 file names in sequences of 2 (quick) / 3, 7 CRSs.')

P('C14', 'CSV exterior parameters mean the same in every supported layout',
  'CsvReader gives, for each row, the image\'s position in world coordinates, its orientation, and its camera ID, whatever the '
  'column order, field name case, extra columns, delimiter, quoting, line ending, header (or fieldnames, or legacy headerless '
  'layout), path in file names, or how the file is passed. x, y, z and omega, phi, kappa fields have precedence over latitude, '
  'longitude, altitude and roll, pitch, yaw, which are converted through the given or default geographic CRS, with north as in the '
  'world CRS; angles are degrees unless radians is given. The world CRS is the crs argument, else that of the .prj file, else for '
  'geographic positions with roll, pitch, yaw the UTM zone of their mean; where there is none, CrsMissingError is raised, and '
  'a bad .prj is a ParamError.',
  ['inputs', 'configurations'], 'every combination within a deviation bound of layout, dialect, field set, CRS source and argument kind',
  'Tests read eight sample files.',
  ['orthority/param_io.py', 'orthority/common.py'],
  [('format detection', 'CsvReader._parse_file, _parse_fieldnames'), ('CRS', 'CsvReader._get_crs, _find_lla_rpy_crs'),
   ('conversion', 'CsvReader._convert, _rpy_to_opk'), ('UTM zone', 'common.utm_crs_from_latlon')],
  'exhaustive enumeration of bounded file layouts through the real reader, oracle = generated values and first-principles geometry',
  'model_checking', 'All files within 2 (quick) / 3 deviations of 3 base layouts over 19 dimensions.')

P('C15', 'OpenDroneMap / OpenSfM files give cameras that project as OpenSfM does',
  'A factory created from a reconstruction.json file (or a cameras.json and a reconstruction.json file) has a camera for each '
  'shot that projects a point given relative to the reference point to the same pixel as the OpenSfM perspective, '
  'simple_radial, radial, brown or fisheye model with that shot\'s rotation and translation, whatever parameters are left out, '
  'camera ID prefix, image shape, or orientation. The world CRS is the one given, else the UTM zone of the reference point, '
  'anywhere on the globe. Files with missing, mistyped or unsupported content are reported as ParamError naming the file.',
  ['inputs'], 'every combination within a deviation bound of camera model, parameters, pose, reference and CRS; UTM zones at every edge; '
  'every listed malformation',
  'Tests compare one dataset with itself.',
  ['orthority/param_io.py', 'orthority/enums.py', 'orthority/common.py'],
  [('interior', '_read_osfm_int_param, CameraType.from_odm'), ('exterior', 'OsfmReader.read_ext_param, _cv_ext_to_oty_ext'),
   ('UTM zone', 'OsfmReader._find_utm_crs, common.utm_crs_from_latlon')],
  'exhaustive enumeration of bounded files through the real reader and cameras, oracle = OpenSfM equations', 'model_checking',
  'All files within 2 (quick) / 3 deviations of 3 base files over 14 dimensions; 5 points per shot.')

P('C16', 'EXIF / XMP tags give the camera parameters the documented tag tables say',
  'Interior and exterior parameters read from image tags (ExifReader, read_exif_int_param, FrameCameras.from_images) are those of '
  'the first complete documented tag set: DewarpData, else focal length with sensor size from focal plane resolution in any '
  'unit, else the 35 mm equivalent; DJI XMP position, else EXIF GPS with its hemisphere and altitude references; DJI gimbal '
  '(pitch -90 is straight down), else Sensefly, else Pix4D angles. Tags may be XMP attributes or elements, in any descriptions. '
  'Positions and orientations are converted to the given CRS, or the UTM zone of the mean position; camera IDs are made of '
  'make, model and serial number. Images without a complete set are reported as ParamError naming the image.',
  ['inputs', 'configurations'], 'every combination within a deviation bound of present, partial and absent tag sets, units, '
  'references, styles and image sets', 'Tests read tags of one drone\'s images, and each tag parser on one value.',
  ['orthority/exif.py', 'orthority/param_io.py'],
  [('tags', 'exif.Exif'), ('interior', '_read_exif_int_param'), ('exterior', '_read_exif_ext_param, _rpy_to_opk'),
   ('CRS', 'ExifReader._find_utm_crs')],
  'exhaustive enumeration of bounded tag sets through the real reader, oracle = documented tag tables', 'model_checking',
  'All tag sets within 2 (quick) / 3 deviations of 3 base sets over 20 dimensions; position without altitude is not judged.')

P('C21', 'The ortho covers the imaged ground that the DEM covers, wherever the DEM lies',
  'For every extent, nodata pattern and surrounding terrain of the DEM, the ortho is valid on all imaged ground where the DEM '
  'has heights and on nothing else, is cropped to that ground, and holds there the pixels of an ortho made with a larger DEM. '
  'Terrain away from the image does not change it. When the DEM leaves imaged ground uncovered a coverage warning is given, '
  'and none is given when it covers the image; a DEM without any height under the image, or an invalid DEM band, is reported '
  'as an Orthority error.',
  ['inputs', 'configurations'], 'every rectangular DEM extent over a grid of edges, every nodata hole position and size, every '
  'kind of surrounding terrain, DEM band and ortho resolution, for nadir, tilted, oblique, distorted and RPC cameras',
  'Tests use one partially covering DEM and check only that a warning is given.',
  ['orthority/ortho.py', 'orthority/camera.py', 'orthority/common.py'],
  [('DEM window', 'Ortho._get_init_dem'), ('coverage, crop & mask', 'Ortho._mask_dem'),
   ('boundary on the surface', 'Camera._pixel_to_world_surf')],
  'exhaustive enumeration of DEM extents, holes and surroundings on the real code, oracle = projection of the DEM cells and the '
  'full DEM ortho', 'model_checking',
  'All extents with edges in a set of 7 (quick) / 13 per axis; cells within one or two of an edge are not judged, except in level '
  'scenes where coverage is decided exactly.')

P('C23', 'Boundary polygons follow the image edge and meet the ground where edge rays do',
  'A camera\'s pixel boundary goes once around the image, through its corners, with about the requested number of evenly spaced '
  'points, in the coordinates of the undistorted image when distortion is excluded. Its world boundary consists of the points '
  'where the rays of those pixels reach the given height, clipped to the camera height by default, or first meet the given '
  'surface (at the surface minimum where they miss it), within one surface cell. Cameras that see the horizon, surfaces above '
  'the camera, surfaces without transform and invalid heights are rejected; arrays passed in are not modified.',
  ['inputs', 'configurations'], 'every camera type, image size, pose, distortion setting, point count, surface shape, resolution, '
  'interpolation and tilt angle in the lattice, and every boundary point',
  'Tests check a few cameras over flat or planar surfaces; rays that miss, graze or cross the surface several times are not sampled.',
  ['orthority/camera.py'],
  [('pixel boundary', 'Camera.pixel_boundary, FrameCamera.pixel_boundary'), ('ray / surface intersection', 'Camera._pixel_to_world_surf'),
   ('checks & clipping', 'FrameCamera.world_boundary, FrameCamera._horizon_fov')],
  'exhaustive enumeration of a bounded configuration space, every point compared with densely sampled reference rays',
  'model_checking', 'All combinations in the lattice; crossings narrower than a ray step are not judged.')

P('C22', 'All documented forms of a file argument are equivalent and left as they were',
  'Every function and class that takes a file gives the same result whether the file is given as a path string, path object, URI, '
  'fsspec OpenFile (local or on another file system), text file object or open dataset, in every combination of forms, and whatever '
  'the case of its file name extension. Datasets '
  'and file objects passed in are still open and usable afterwards, and files opened by the call are closed. Closed objects, '
  'objects in the wrong mode, unsupported types and missing files are reported as OSError, TypeError or FileNotFoundError without '
  'changing any file, and existing files are only replaced with overwrite set.',
  ['inputs', 'configurations'], 'every reader, writer, factory, camera and processor with every pair of argument forms',
  'Tests cover one or two forms for each function, and rarely combinations or what happens to the objects afterwards.',
  ['orthority/common.py', 'orthority/param_io.py', 'orthority/factory.py', 'orthority/ortho.py', 'orthority/pan_sharp.py', 'orthority/exif.py'],
  [('raster files', 'common.OpenRaster'), ('text files', 'common.Open'), ('names', 'common.get_filename'),
   ('sidecar & output names', 'common.join_ofile, CsvReader._get_crs')],
  'exhaustive enumeration of argument form combinations on the real code, oracle = the path string call', 'model_checking',
  'All pairs of forms (all triples of image list forms in thorough); other file systems represented by fsspec memory files.')

P('C17', 'Damaged parameter files raise a ParamError naming the file, never misread',
  'Reading an interior, exterior, RPC or GCP parameter file (Orthority YAML and GeoJSON, OpenSfM / ODM JSON, CSV) that is truncated, '
  'not of the format, or has a required item missing or of the wrong type raises a ParamError whose message names the file. No other '
  'exception escapes, and such a file is never accepted. Where a damaged entry does not make the file invalid, all other entries '
  'are read exactly as from the undamaged file. Images that refer to unknown cameras are rejected.',
  ['inputs', 'crash points'], 'every truncation point of every file format and every document one edit away from a valid one',
  'Tests check a handful of hand written invalid files per format.',
  ['orthority/param_io.py', 'orthority/common.py', 'orthority/factory.py'],
  [('schema validation', 'common.validate_collection'), ('Orthority files', 'read_oty_int_param, read_oty_rpc_param, read_oty_gcps, OtyReader'),
   ('OpenSfM files', '_read_osfm_int_param, OsfmReader'), ('CSV files', 'CsvReader')],
  'exhaustive fault injection: every truncation and every single (thorough: double) edit of reference documents, read by the real code '
  'and judged by an independent validity predicate', 'model_checking',
  'One edit (two in thorough) with eleven replacement values at every position; every byte for truncations.')

P('C24', 'Hand-written native parameter files mean what their documentation says',
  'Interior, exterior, RPC and GCP parameter files in the documented native formats (YAML and GeoJSON), and the older '
  'flat and config.yaml layouts, are read as the documented parameters whatever the order of keys, cameras, images and '
  'features, the YAML or JSON style (block, flow, comments, quoting, anchors, line endings), extra members, integer or '
  'real numbers, case of the camera type and left out optional items; GCPs of an image are collected in file order '
  'wherever they are in the file. Images with RPC tags, _RPC.TXT or .RPB sidecar files give the same RPC parameters; GCP tags in any CRS are read '
  'as the same pixel coordinates, with positions in WGS84 (EPSG:4979). '
  'Cameras created from what is read project as the documented models do.',
  ['inputs'], 'every file in a space of layouts, styles, orders, spellings, values and omissions within the deviation bounds',
  'The tests read a few fixed files, mostly ones that orthority itself wrote.',
  ['orthority/param_io.py', 'orthority/common.py'],
  [('interior files', 'param_io.read_oty_int_param'), ('exterior files', 'param_io.OtyReader'), ('RPC files', 'param_io.read_oty_rpc_param'),
   ('GCP files', 'param_io.read_oty_gcps'), ('RPC images', 'param_io.read_im_rpc_param')],
  'exhaustive enumeration of a bounded space of documents, read with the real readers; oracle = the documented meaning, and '
  'independent projection equations', 'model_checking',
  'All files within 2-3 (quick) / 3-4 deviations of base files of each layout; YAML 1.1 numbers; unique names.')

P('C25', 'simple-ortho makes each image\'s own ortho from the configuration and its pose',
  'For every image that its paths and wildcards name, in any order and from any number of directories, the simple-ortho command writes '
  '<image name>_ORTHO.tif in the ortho directory, or in the image\'s own directory if none is given, and nothing else. Each ortho is '
  'the one that the API makes with the camera, CRS, DEM band, interpolation, remap and output settings of the configuration file, and '
  'the position and (degree) angles of that image\'s row in the position and orientation file, whatever other images and rows there '
  'are. Deprecated settings change nothing. The -wc option writes the configuration and no ortho. Missing or invalid inputs, and '
  'existing orthos without the overwrite setting, end the command with an error, and an existing ortho is then left as it was.',
  ['inputs', 'configurations', 'histories'], 'every command line and configuration within the deviation bound, every order of up to 3 '
  'images with every camera type',
  'The tests run the command once, with one image and one configuration.',
  ['orthority/cli.py'],
  [('loop over images', 'cli._simple_ortho'), ('arguments', 'cli._get_simple_ortho_parser')],
  'exhaustive enumeration of a bounded space of command lines and configurations run on the real command; oracle = API calls for each '
  'image alone', 'model_checking',
  'All assignments within 2 (quick) / 3 deviations of a two image, two directory command; run in process; images with distinct names.')

P('C26', 'Camera read and remap show the image at the projected positions',
  'Camera.read returns the chosen bands in the given order and data type, and for an undistorting camera shows at each pixel the source '
  'image position that the camera model gives that pixel\'s ray. Camera.remap gives at each node of a world coordinate grid the image '
  'value at the position where the camera model projects it, for any grid shape, orientation, node order and memory layout. What is '
  'outside of the image or has a NaN coordinate is the given nodata value, or by default that of the data type, and the returned '
  'mask is True exactly where all bands are nodata. Nodata is dilated by the given kernel where, and only where, an undistorted '
  'image can be blurred with nodata. Arguments are not changed; unsupported arrays are refused with a ValueError, and images of '
  'another size than the camera give a warning.',
  ['inputs', 'configurations'], 'every camera type, data type, band selection, interpolation, nodata value, grid and kernel within the '
  'deviation bound',
  'The tests compare a few calls with each other, on one regular grid.',
  ['orthority/camera.py', 'orthority/common.py'],
  [('remapping', 'Camera.remap'), ('nodata dilation', 'FrameCamera.remap'), ('reading', 'Camera.read, FrameCamera.read'),
   ('undistortion', 'FrameCamera._undistort_im')],
  'exhaustive enumeration of a configuration lattice on the real cameras; oracle = independent projection equations and images of '
  'coordinate ramps', 'model_checking',
  'All assignments within 3 (quick) / 4 deviations of 5 base configurations; 24 x 19 images, 30 x 26 node grids; 0.1 pixel tolerance.')
