"""What each property claims; tools/gen.py writes properties.jsonl and
MANIFEST.json from this."""
M = {}
NA = []


def prop(pid, title, statement, over, text, why, files, mech):
    M[pid] = dict(id=pid, title=title, statement=statement,
                  quantifier={'over': over, 'text': text},
                  why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [
                      {'name': n, 'where': w} for n, w in mech]})


CONV = 'algotom/prep/conversion.py'
CALC = 'algotom/prep/calculation.py'
CORR = 'algotom/prep/correction.py'
REMO = 'algotom/prep/removal.py'
FILT = 'algotom/prep/filtering.py'
PHAS = 'algotom/prep/phase.py'
LOAD = 'algotom/io/loadersaver.py'
CONVERT = 'algotom/io/converter.py'
POST = 'algotom/post/postprocessing.py'
RECO = 'algotom/rec/reconstruction.py'
VERT = 'algotom/rec/vertrec.py'
UTIL = 'algotom/util/utility.py'
CORL = 'algotom/util/correlation.py'
CALI = 'algotom/util/calibration.py'
SIMU = 'algotom/util/simulation.py'

prop('C01', 'Stitching two overlapping images rebuilds the scene',
     'Stitching two images that are windows onto one scene, given the true '
     'overlap and side, returns that scene at every pixel, whatever blending '
     'ramp or normalisation is chosen. For a fractional overlap an affine '
     'scene is reproduced at the sub-pixel registered positions and the '
     'result has the width of the joint field of view. The inputs are not '
     'changed, pixels outside the overlap come from one image only, and '
     'supplied weights are applied as given.',
     ['inputs', 'configurations'],
     'all pixel values, sides, overlaps, weights, padding widths',
     'Tests stitch two fixed images and compare shapes or one mean.',
     [CONV], [('stitch_image', CONV)])
prop('C02', 'Joining two images with or without a gap',
     'Joining two images places each at its true position for positive, zero '
     'and negative (gap) overlaps on either side, fills a gap by '
     'interpolation between its two edges, and reproduces an affine scene '
     'exactly for fractional widths. Inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, sides, overlap and gap widths',
     'Tests join one pair of constant images and look at the shape.',
     [CONV], [('join_image', CONV)])
prop('C03', 'Combining many images equals combining them pairwise',
     'Stitching or joining a list of images equals folding the two-image '
     'operation over the list from left to right with the same options, so '
     'windows of one scene give back that scene. Fewer than two images are '
     'rejected and inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, numbers of images, overlaps, option settings',
     'Tests use one list of three images with default options.',
     [CONV], [('stitch_image_multiple', CONV), ('join_image_multiple', CONV)])
prop('C04', '360-degree sinograms convert and extend without moving the object',
     'Converting an offset 360-degree sinogram to 180 degrees yields the '
     'full-width 180-degree sinogram of the same object with the rotation '
     'axis at the reported centre, for integer, half-integer and fractional '
     'centres on either side. Converting 180 to 360 degrees mirrors about '
     'the given centre and extending a sinogram pads it symmetrically about '
     'the reported centre.',
     ['inputs', 'configurations'],
     'all pixel values, centres, sides, widths, numbers of angles',
     'Tests check the returned centre for one phantom within a tolerance.',
     [CONV], [('convert_sinogram_360_to_180', CONV),
              ('convert_sinogram_180_to_360', CONV),
              ('extend_sinogram', CONV)])
prop('C05', 'Helical data give the circular sinogram of the requested height',
     'A sinogram generated from a helical scan at a given height takes each '
     'angle of the half (or full) turn from the projection and detector row '
     'where that height is seen, interpolating linearly between rows and '
     'projections, and reports the height it belongs to. Cropping and '
     'flat-field correction commute with it, heights outside the '
     'reconstructable range are refused; every slice seen by enough '
     'projections is given, whatever the pitch.',
     ['inputs', 'configurations'],
     'all projection values, heights, pitches and scan types',
     'Tests use one simulated scan and compare shapes and a mean value.',
     [CONV, CALC], [('generate_sinogram_helical_scan', CONV),
                    ('generate_full_sinogram_helical_scan', CONV),
                    ('calculate_maximum_index', CALC)])
prop('C06', 'Overlap and rotation-axis search find the true position',
     'Searching the overlap of two windows on one scene returns the true '
     'overlap (within half a pixel, exactly at the vertex of the match '
     'curve) for either side, window size, normalisation and number of '
     'cores. The automatic side equals the sharper of the two explicit '
     'searches, and the centre of rotation derived from 360-degree '
     'sinograms or from 0/180-degree projections is the mirror axis implied '
     'by that overlap.',
     ['inputs', 'configurations'],
     'all scenes whose true position is the unique best match',
     'Tests search one noisy pattern with a tolerance of several tenths.',
     [CALC], [('find_overlap', CALC), ('find_center_360', CALC),
              ('find_center_projection', CALC)])

prop('C07', 'Flat-field correction is the exposure-scaled transmission formula',
     'Flat-field correction returns (projection - dark) / (ratio*flat - dark), '
     'or projection / (ratio*flat) without the dark field, for every data '
     'type including unsigned integers, replacing dead reference pixels by '
     'the mean reference so the result is finite. Optional methods are '
     'applied in the given order, sinogram by sinogram for 3D data. Inputs '
     'are not changed and unknown methods are refused.',
     ['inputs', 'configurations'],
     'all pixel values, exposure ratios, patterns of dead pixels, option chains',
     'Tests correct one constant stack and compare a mean.',
     [CORR], [('flat_field_correction', CORR)])
prop('C08', 'Distortion correction gives the same answer on every access path',
     'Correcting radial distortion of a projection samples each output pixel '
     'bilinearly at the point given by the backward polynomial model, clipped '
     'to the image. A corrected sinogram, alone or in a chunk of rows of a '
     'stack, equals that row of the corrected projections. Inputs are not '
     'changed.',
     ['inputs', 'configurations'],
     'all pixel values, rows, row ranges, centres, coefficients',
     'Tests compare one row of one grid image within a tolerance.',
     [CORR, UTIL], [('unwarp_projection', CORR), ('unwarp_sinogram', CORR),
                    ('unwarp_sinogram_chunk', CORR), ('mapping', UTIL)])
prop('C09', 'Tilted sinograms and profiles follow the rotated detector rows',
     'A tilted sinogram or profile at a row and angle samples every '
     'projection bilinearly along that row rotated about the image centre. '
     'Chunks of rows and subsets of projections give the same rows as single '
     'calls. Inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, rows, row ranges, tilts from a list',
     'Tests compare one row of a rotated phantom within a tolerance.',
     [CORR, UTIL], [('generate_tilted_sinogram', CORR),
                    ('generate_tilted_sinogram_chunk', CORR),
                    ('generate_tilted_profile_line', CORR),
                    ('generate_tilted_profile_chunk', CORR)])

prop('C10', 'Sorting-based stripe removal keeps every value at its own angle',
     'Sorting each column of a sinogram, filtering across columns and '
     'restoring returns each value to the row it came from: sort and restore '
     'are inverse, a value of rank k receives the filtered value of rank k, '
     'and the smooth/sharp split used with it sums to the input. A sinogram '
     'whose columns hold the same values, plus one offset column, comes back '
     'without the offset. Options are applied in order, unknown ones refused, '
     'inputs not changed.',
     ['inputs', 'configurations'],
     'all pixel values and orders, window sizes and dimensions, low-pass widths',
     'Tests compare a mean over one column of one phantom.',
     [REMO, UTIL], [('sort_forward', UTIL), ('sort_backward', UTIL),
                    ('remove_stripe_based_sorting', REMO),
                    ('remove_stripe_based_filtering', REMO),
                    ('remove_stripe_based_2d_filtering_sorting', REMO),
                    ('separate_frequency_component', UTIL),
                    ('apply_gaussian_filter', UTIL)])
prop('C11', 'Profile-based stripe removal applies the documented correction',
     'Normalisation and regularisation add to every row of a chunk the '
     'correction computed from the mean profile of that chunk; all rows '
     'belong to exactly one chunk. Fitting scales the sinogram by smoothed '
     'over raw fit, keeping the mean. The Fourier and wavelet-Fourier methods '
     'damp only vertical frequencies around zero (also for even sizes) of the '
     'stated components and return an image of the input size. With sorting, values return to their own '
     'rows. Inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, numbers of chunks, strengths, wavelet levels',
     'Tests compare a mean over one column of one phantom.',
     [REMO, UTIL], [('remove_stripe_based_normalization', REMO),
                    ('remove_stripe_based_regularization', REMO),
                    ('remove_stripe_based_fitting', REMO),
                    ('remove_stripe_based_fft', REMO),
                    ('remove_stripe_based_wavelet_fft', REMO),
                    ('apply_filter_to_wavelet_component', UTIL)])

prop('C12', 'Detection-based stripe removal changes only what it detected',
     'A profile is split into stripes and non-stripes by a line fitted to the '
     'middle of its sorted values and the given ratio; flagged columns are '
     'interpolated linearly from the nearest unflagged columns (dead and '
     'fluctuating stripes) or receive the rank-matched smoothed values '
     '(large stripes); unflagged columns keep their values apart from the '
     'documented normalisation; columns of zeros give no infinite values. The '
     'combined method equals its steps applied in order. Inputs are not '
     'changed.',
     ['inputs', 'configurations'],
     'all values of the profile or of the columns under test, stripe positions',
     'Tests compare a mean over one column of one phantom.',
     [REMO, UTIL], [('detect_stripe', UTIL), ('remove_dead_stripe', REMO),
                    ('remove_large_stripe', REMO), ('remove_all_stripe', REMO),
                    ('remove_stripe_based_interpolation', REMO)])
prop('C13', 'Zinger and blob removal repair only the flagged pixels',
     'A pixel brighter than the mean of its neighbourhood by the threshold '
     'takes that mean, all others stay; with a size limit only connected '
     'groups up to that size are treated (a group is its own pixels, also when '
     'others lie in the box around it). Masked blobs are bridged along each '
     'row by straight lines between the nearest good pixels (two edge columns '
     'on both sides excluded). The blob mask flags the outliers of each row '
     'of the normalised flat field. Images and masks passed in are not '
     'changed.',
     ['inputs', 'configurations'],
     'all pixel values, all masks of a row, zinger positions and sizes',
     'Tests compare a mean over one bright patch.',
     [REMO], [('remove_zinger', REMO), ('select_zinger', REMO),
              ('check_zinger_size', REMO), ('generate_blob_mask', REMO),
              ('remove_blob', REMO), ('remove_blob_1d', REMO)])

prop('C14', 'Back projection follows the beam geometry on every device',
     'Back projection adds, for every pixel and angle, the linearly '
     'interpolated filtered value where the ray through that pixel meets the '
     'detector, for any centre and with zero or edge values outside. The CPU, '
     'GPU and chunked versions agree, the vertical versions follow the same '
     'geometry along a line of the slice, and the result does not depend on '
     'how parallel threads are scheduled: no two of them update one pixel.',
     ['inputs', 'configurations', 'schedules'],
     'all sinogram values, all schedules of the loop iterations or threads, '
     'listed centres and angles',
     'Tests reconstruct one phantom; races need particular interleavings.',
     [RECO, VERT], [('back_projection_cpu', RECO),
                    ('back_projection_gpu', RECO),
                    ('back_projection_gpu_chunk', RECO),
                    ('vertical_back_projection_cpu', VERT),
                    ('vertical_back_projection_cpu_chunk', VERT),
                    ('_get_points_single_line', VERT)])
prop('C15', 'FBP, BPF and DFI are the documented linear pipelines',
     'FBP is logarithm, padding, ramp filtering and back projection; BPF '
     'filters after back projection; both scale by pi/(number of angles - 1) '
     'and mask outside the circle of the requested ratio. DFI is linear and '
     'independent of the chunk, and its slice does not depend on where the '
     'given angles start or which way they go. A slice reconstructed alone, '
     'in a chunk, on the GPU or with more cores is the same; default angles '
     'are 0 to 180 '
     'degrees; wrong centre, angles or filters are refused; the sinogram '
     'passed in is not changed.',
     ['inputs', 'configurations'],
     'all sinogram values, listed centres, filters, pads, mask ratios, chunks',
     'Tests check that one simulated point comes back near its position.',
     [RECO, UTIL], [('fbp_reconstruction', RECO), ('bpf_reconstruction', RECO),
                    ('dfi_reconstruction', RECO),
                    ('make_circle_mask', UTIL)])
prop('C16', 'Vertical slices equal the same slices of the full volume',
     'A vertical slice reconstructed straight from projections equals, at '
     'every point of its line, the back projection of the ramp-filtered '
     'projections (or filtering after), whatever the chunk size, crop, range '
     'of projections, flat-field input, device. Several parallel or '
     'different-angle slices equal single ones. The centre search returns '
     'the candidate with the smallest metric and the visual search saves one '
     'slice per candidate. Projections passed in are not changed.',
     ['inputs', 'configurations'],
     'all projection values, listed lines, centres, crops, chunk sizes',
     'Tests compare one slice of one phantom within a tolerance.',
     [VERT], [('vertical_reconstruction', VERT),
              ('vertical_reconstruction_multiple', VERT),
              ('vertical_reconstruction_different_angles', VERT),
              ('find_center_vertical_slice', VERT),
              ('find_center_visual_vertical_slices', VERT)])

prop('C17', 'What is saved comes back and nothing is overwritten unasked',
     'An image, stack, hdf stream or set of distortion coefficients that is '
     'saved is read back with the same values, shape and type, each image of '
     'a stack in a file of its own. With overwrite=False any set of existing '
     'files or folders is left untouched and a fresh name is used. Missing '
     'files, wrong keys and mismatched lists are refused.',
     ['inputs', 'configurations', 'histories'],
     'all pixel values and coefficients, all sets of existing files',
     'Tests write one file to an empty folder and check that it exists.',
     [LOAD], [('save_image', LOAD), ('save_image_multiple', LOAD),
              ('make_file_name', LOAD), ('make_folder_name', LOAD),
              ('open_hdf_stream', LOAD),
              ('save_distortion_coefficient', LOAD)])
prop('C18', 'Conversions and stack readers agree with plain array indexing',
     'Converting tif folders to hdf and back keeps every image at its index '
     'with the crop applied in the image frame. The tif-folder emulator '
     'indexes like the array. Stacks of reference and sample images are the '
     'stated images (averages of all flat and dark images wherever they are '
     'in the scan), cropped, corrected and with zeros replaced as '
     'documented. Fields passed in are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, indices, crops, orders of image types in a scan',
     'Tests compare shapes or read one constant stack.',
     [CONVERT, LOAD], [('convert_tif_to_hdf', CONVERT),
                       ('extract_tif_from_hdf', CONVERT),
                       ('HdfEmulatorFromTif', CONVERT),
                       ('get_reference_sample_stacks_dls', LOAD),
                       ('get_reference_sample_stacks', LOAD),
                       ('get_image_stack', LOAD)])
prop('C19', 'Down-sampling, rescaling and statistics do not depend on storage',
     'Down-sampling replaces every cell by its mean, median, maximum or '
     'minimum; rescaling maps the given (or global) range onto 8 or 16 bits '
     'by clipping and truncation; statistics are the stated figures over '
     'every skip-th image. Arrays, tif folders and hdf files, crops, single '
     'images give the same result in every output form. Existing output is '
     'refused or replaced as asked; inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, input and output forms, crops, cells, ranges',
     'Tests check the shape of one dataset.',
     [POST], [('get_statistical_information_dataset', POST),
              ('downsample_dataset', POST), ('rescale_dataset', POST),
              ('rescale', POST)])
prop('C20', 'Reslicing transposes the dataset and leaves nothing else behind',
     'Slice k of a resliced dataset holds row (or column) k of every '
     'cropped, rotated and rescaled image, whatever the chunk size, input '
     'form, output form or number of cores. Temporary data are removed, '
     'existing files and folders of the user are neither deleted nor '
     'overwritten unasked.',
     ['inputs', 'configurations'],
     'all pixel values, chunk sizes, crops, axes, forms from a list',
     'Tests check the shape of one resliced dataset.',
     [POST], [('reslice_dataset', POST), ('__save_intermediate_data', POST)])

prop('C21', 'Slices go to polar coordinates and back in register',
     'Point (t, k) of a polar slice is the bilinear value of the slice at '
     'angle t of a full turn and radius k of the inscribed circle, the way '
     'back reads the polar slice at exactly those coordinates, so the round '
     'trip leaves the image in place. Ring removal is the chosen stripe '
     'removal between the two, zero outside the circle; slices that are not '
     'square are refused and inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values of square slices, given or default coordinates',
     'Tests compare the mean of one phantom with a loose tolerance.',
     [UTIL, POST], [('rectangular_from_polar', UTIL),
                    ('polar_from_rectangular', UTIL),
                    ('transform_slice_forward', UTIL),
                    ('transform_slice_backward', UTIL),
                    ('remove_ring_based_fft', POST),
                    ('remove_ring_based_wavelet_fft', POST)])
prop('C22', 'Grid scans are located, filled and processed slice by slice',
     'Every slice of a grid scan is located in the rows that show it with '
     'weights that fall linearly to zero across their own overlap and sum '
     'to one, one by one or as a chunk. Overlaps of cells without sample '
     'are copies of cells with sample, which keep theirs. Spiral positions '
     'follow the golden angle and stay in the field of view. Running a '
     'method over slices in parallel equals doing so one by one.',
     ['inputs', 'configurations'],
     'all overlaps, slices, overlap values and sides, steps, pixel values',
     'Tests count the results for two slices of equal overlaps.',
     [UTIL], [('locate_slice', UTIL), ('locate_slice_chunk', UTIL),
              ('fix_non_sample_areas', UTIL),
              ('generate_spiral_positions', UTIL),
              ('parallel_process_slices', UTIL)])
prop('C23', 'Correlation maps are Pearson coefficients and their peaks shifts',
     'Every value of a correlation map is the Pearson coefficient of the '
     'image and the part of the reference under it, on the CPU and the GPU, '
     'for images and stacks. A peak is the place of the maximum (minimum), '
     'refined by the stationary point of the quadratic through its '
     'neighbours, exact for quadratic peaks. The shift read from the map '
     'locates a displaced image whatever its gain and offset.',
     ['inputs', 'configurations'],
     'symbolic pixels, gains, offsets, peak positions; all methods',
     'Tests locate three shifts of one random image.',
     [CORL], [('generate_correlation_map', CORL), ('locate_peak', CORL),
              ('find_shift_based_correlation_map', CORL),
              ('normalize_image', CORL)])
prop('C24', 'Every pixel gets the shift of its own windows',
     'Local shifts of images and stacks: each pixel further than window and '
     'margin from the border has the shift found between its own windows, '
     'zero at the border, whatever the chunk size, number of cores or device '
     '(CPU, GPU, both). The unified pattern analysis minimises the weighted '
     'squared residual of gain and background at each displacement and '
     'reports that gain and visibility. A global shift is the stated mean or '
     'median of the local ones at the points inside the box. Mismatched or '
     'too small inputs are refused; inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values (searches stood in), symbolic gains and offsets, '
     'chunk sizes, windows, margins, methods, devices from a list',
     'Tests compare the mean shift of one random image moved as a whole.',
     [CORL], [('find_local_shifts', CORL), ('find_local_shifts_umpa', CORL),
              ('find_global_shift_based_local_shifts', CORL)])
prop('C25', 'Fresnel and wedge filters act on the stated frequencies',
     'The Fresnel filter divides every frequency of the padded (log) image '
     'by the window 1 + ratio (u^2 + v^2), in two dimensions or along rows, '
     'so flat images pass unchanged; a given window is used instead. The '
     'double-wedge filter keeps the frequencies of the mask in every '
     'iteration, the mask is zero inside the wedge the sinogram radius '
     'allows and one outside and in the middle rows; 180-degree data go '
     'through their 360-degree form. Wrong masks, types and missing centers '
     'are refused and inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, filter strengths, masks; sizes, pads, centers listed',
     'Tests compare means of one phantom.',
     [FILT], [('make_fresnel_window', FILT), ('fresnel_filter', FILT),
              ('make_double_wedge_mask', FILT),
              ('double_wedge_filter', FILT)])

prop('C26', 'Phase unwrapping gives back the phase up to whole turns',
     'Unwrapping by cosine transform solves the discrete Poisson equation '
     '(mirrored borders) of the wrapped differences of neighbours, so a phase '
     'whose neighbours differ by less than pi comes back up to a constant, '
     'however many turns were taken off each pixel. Unwrapping by Fourier '
     'transform solves it for the Laplacian of the mirrored wave exp(i '
     'phase). A given window is used instead, one of a wrong size refused. '
     'Every step of the iterative method adds the weighted, unwrapped '
     'difference that is left. The quality map is the spread of the wrapped '
     'differences in a window, which whole turns do not change; the weight '
     'mask is 1 above the noise level and 0 elsewhere.',
     ['inputs', 'configurations'],
     'all phases with neighbour steps below pi, all whole turns per pixel, '
     'all weights; sizes and iterations listed',
     'Tests unwrap one phantom and look at the size of the error.',
     [PHAS], [('unwrap_phase_based_cosine_transform', PHAS),
              ('unwrap_phase_based_fft', PHAS),
              ('unwrap_phase_iterative_fft', PHAS),
              ('get_quality_map', PHAS), ('get_weight_mask', PHAS)])

prop('C27', 'A surface is rebuilt from its gradients in both directions',
     'The method of Simchony, Chellappa and Shao returns the mean-free '
     'surface whose periodic discrete Laplacian is the divergence of the '
     'padded gradients; the method of Frankot and Chellappa returns the '
     'least-squares surface of the mirrored gradients, in pixels along both '
     'axes, for images of any shape. Given windows are used instead. '
     'Correcting negative values only moves the surface as a whole, and '
     'leaves none below zero. Wrong sizes are refused, inputs not changed.',
     ['inputs', 'configurations'],
     'all gradient values; sizes (also not square), pads and modes listed',
     'Tests integrate one smooth square surface with a loose threshold.',
     [PHAS], [('reconstruct_surface_from_gradient_FC_method', PHAS),
              ('reconstruct_surface_from_gradient_SCS_method', PHAS),
              ('_make_window_FC_method', PHAS),
              ('_make_window_SCS_method', PHAS)])

prop('C28', 'Speckle stacks are aligned and turned into phase and signals',
     'Shifts between image stacks are found whatever the gain of every '
     'image; shifts between sample images are those of the sample, whatever '
     'the drift of the speckles between sample and reference, and aligning '
     'by them puts the same sample at the same pixels in every image. '
     'Transmission and dark signal compare the window of the sample with the '
     'window of the reference it came from, so a sample of one gain that '
     'only moves speckles gives that gain and no dark signal, also when rows '
     'are shared among cores; the automatic margin covers the largest shift. '
     'Phase retrieval integrates the found shifts (their border replaced by '
     'mirrored values) with the chosen method and returns the images asked '
     'for. Wrong sizes are refused.',
     ['inputs', 'configurations', 'schedules'],
     'all gains, pixels and shifts within the bounds; sizes, drifts, moves '
     'and options listed',
     'Tests use one phantom, equal drifts, and loose thresholds.',
     [PHAS], [('find_shift_between_image_stacks', PHAS),
              ('find_shift_between_sample_images', PHAS),
              ('align_image_stacks', PHAS),
              ('get_transmission_dark_field_signal', PHAS),
              ('retrieve_phase_based_speckle_tracking', PHAS)])

prop('C29', 'Beam hardening, detector blurring and missing angles',
     'The beam-hardening correction applies the documented curve to every '
     'pixel on its own, keeps 0 and 1, and refuses orders below 2 and '
     'images that are not normalised. Deblurring divides the spectrum of '
     'the padded image by the given window, frequency by frequency, '
     'wherever image and window are even, odd or of different sizes, and '
     'refuses windows smaller than the image. Upsampling a sinogram puts '
     'new angles between the old ones: twice as many rows in every step, '
     'old rows taken over before the last filter, the mean kept; '
     'sinograms of 180 degrees come back as such. Inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixel values, all strengths of the correction; sizes, orders, '
     'windows and pads listed',
     'Tests compare one image with the same formula or look at shapes.',
     [CORR], [('beam_hardening_correction', CORR),
              ('non_linear_function', CORR), ('mtf_deconvolution', CORR),
              ('upsample_sinogram', CORR)])

prop('C30', 'Dots of calibration images are segmented pixel by pixel',
     'Normalising the background divides by the running median or the '
     'Gaussian of the image and keeps the mean of the background; the '
     'threshold is the end of the smoothed curve of the sorted values; a '
     'binary image has 1 where the (denoised, normalised) image is above '
     'the threshold, the fewer pixels are dots, holes are filled, '
     'thresholds outside the image are refused. Dot sizes are the largest, '
     'smallest, mean or median number of connected pixels; selecting dots '
     'keeps exactly the pixels of the dots of that size, also where boxes '
     'around dots overlap; the distance of two images of a dot is how far '
     'it moved, whatever gain and background are. Inputs are not changed.',
     ['inputs', 'configurations'],
     'all values of the symbolic pixels, thresholds and dot sizes; image '
     'sizes, layouts of dots and options listed',
     'Tests segment a few generated squares far from each other.',
     [CALI], [('normalize_background', CALI),
              ('normalize_background_based_fft', CALI),
              ('invert_dot_contrast', CALI), ('calculate_threshold', CALI),
              ('binarize_image', CALI), ('get_dot_size', CALI),
              ('check_dot_size', CALI), ('select_dot_based_size', CALI),
              ('calculate_distance', CALI)])

prop('C31', 'Tilt and roll are those of the path the dot runs on',
     'Points on an ellipse give its center, axes and the angle of its major '
     'axis, whatever its size, place and the sign of the decomposition; '
     'tilt is the angle of the ratio of its axes, roll the angle of the '
     'major axis. Points on no ellipse are refused and the linear fit takes '
     'over. The linear fit gives the angle of the least-squares line as '
     'roll, and as tilt that of the ratio of twice the largest smoothed '
     'distance from it to the largest distance of two points. The ellipse '
     'is used for paths wider than a pixel. Coordinates of different '
     'lengths and unknown methods are refused.',
     ['inputs', 'configurations'],
     'all sizes and all places of the paths within the bounds; shapes, '
     'angles and numbers of points (6 or more) listed',
     'Tests fit a single generated ellipse.',
     [CALI], [('fit_points_to_ellipse', CALI),
              ('find_tilt_roll_based_linear_fit', CALI),
              ('find_tilt_roll_based_ellipse_fit', CALI),
              ('find_tilt_roll', CALI)])

prop('C32', 'Centre searches return the best centre of the range searched',
     'The coarse search returns the whole column of the range (both ends '
     'included, kept inside the image) with the least metric, the fine '
     'search the best of start - radius to start + radius in steps, on any '
     'number of cores; together, also when large images are downsampled, '
     'they end not further than half a step from the true centre wherever '
     'it lies in the range and whatever the metric is, as long as it grows '
     'with the distance from it. The metric is the mean masked spectrum of '
     'the 360-degree sinogram made by flipping about the centre; the mask '
     'is 1 where a sinogram of that radius has no signal and 0 near the '
     'axes; downsampling takes means of blocks. Phase correlation finds by '
     'how much an image moved round, whatever gain and (with gradients) '
     'offset, and the centre from projections at 0 and 180 degrees. Inputs '
     'are not changed.',
     ['inputs', 'configurations', 'schedules'],
     'all true centres in the range, all gains, all radii of the mask; '
     'image sizes, ranges, steps listed',
     'Tests look for the center of one phantom with the default range.',
     [CALC], [('find_center_vo', CALC), ('coarse_search_cor', CALC),
              ('fine_search_cor', CALC), ('calculate_center_metric', CALC),
              ('make_inverse_double_wedge_mask', CALC),
              ('downsample_cor', CALC), ('complex_gradient', CALC),
              ('find_shift_based_phase_correlation', CALC),
              ('find_center_based_phase_correlation', CALC)])

prop('C33', 'Slices and sinograms are judged at the centres asked for',
     'The search by slice metrics ends not further than half a step from '
     'the true centre wherever it lies in the range, also when zoomed, for '
     'every metric that grows with the distance from it (or shrinks, when '
     'inverted); the built-in entropy and sharpness are those of the '
     'reconstructed images, whatever their gain; method, filter, ratio, '
     'angles, cores and options of the metric reach the reconstruction, '
     'and the logarithm is taken once. Visual searches save one image per '
     'centre from start to stop, named after it and made with it (slices: '
     'zoomed image and centre; sinograms: the sinogram above itself '
     'flipped about the centre), always in a new folder. Inputs are not '
     'changed.',
     ['inputs', 'configurations'],
     'all true centres in the range, all gains, all pixels of sinograms '
     'looked at; sizes, ranges, steps, zooms and methods listed',
     'Tests look for the center of one phantom and count files.',
     [RECO, UTIL], [('find_center_based_slice_metric', RECO),
                    ('_find_center_based_slice_metric', RECO),
                    ('find_center_visual_slices', RECO),
                    ('_reconstruct_slice', RECO),
                    ('find_center_visual_sinograms', UTIL)])

prop('C34', 'Simulated masks, sinograms and artifacts are what they claim',
     'Elliptic, rectangular and triangular masks are 1 at the pixels inside '
     'the shape of that centre (relative to the middle of the image, y '
     'upwards), lengths and angle, and 0 outside, up to their border. '
     'Simulated sinograms hold the projections of the padded image at the '
     'given angles (sums of columns and rows at multiples of 90 degrees); '
     'images that are not square are refused. Noise has the asked share of '
     'the mean of non-zero pixels. A stripe changes only the columns from '
     'its position on, wherever that is inside the image: scaled by rank '
     '(partial), by one factor (full), set to a share of the maximum '
     '(dead), or with noise (fluctuating). X-ray images are exp(-s/max). '
     'Beam fluctuations multiply rows by moved Gaussians. Inputs are not '
     'changed.',
     ['inputs', 'configurations'],
     'all centres of masks along lines, all pixel values; sizes, lengths, '
     'angles, positions and strengths listed; any noise',
     'Tests look at the sum or the shape of single results.',
     [SIMU], [('make_elliptic_mask', SIMU), ('make_rectangular_mask', SIMU),
              ('make_triangular_mask', SIMU), ('make_sinogram', SIMU),
              ('add_noise', SIMU), ('add_stripe_artifact', SIMU),
              ('convert_to_Xray_image', SIMU),
              ('add_background_fluctuation', SIMU)])

prop('C35', 'UMPA tracking fits transmission, dark signal and movement',
     'In every window that fits, the movement is at the least residual of '
     'the weighted fit of the sample windows by the speckle windows (with a '
     'constant of the mean, for dark signals), the transmission and the '
     'visibility are those of this fit; for a sample that only moves, '
     'attenuates and blurs evenly they are found as they are. A gain of the '
     'sample scales the transmission and changes nothing else. Chunks, '
     'cores, blocks and the GPU make no difference. Stacks of different '
     'shapes, single images and images too small for the window are '
     'refused. Inputs are not changed.',
     ['inputs', 'configurations', 'schedules'],
     'all gains; listed textures, movements, visibilities, windows, '
     'margins, chunks and blocks',
     'Tests compare mean shifts of one texture roughly.',
     [CORL], [('find_local_shifts_umpa', CORL), ('__calc_shift_umpa', CORL),
              ('__accu_correlate', CORL),
              ('__sum_multiply_no_norm_2d', CORL)])

prop('C36', 'Wrappers of other packages hand over the right problem',
     'Gridrec (Tomopy) and Astra reconstructions give, for every slice of '
     'single sinograms and stacks (angle, slice, column), the slice of the '
     'edge-padded sinogram about the given centre at the given (or default) '
     'angles, cropped to the width of the sinogram and masked by the ratio '
     '(0: as far as the centre is from the nearer border); the '
     'logarithm is taken once, of values that are not positive as of 1. '
     'Method, filter, number of iterations and padding asked for are those '
     'used; without a GPU the CPU method of the same name is. Astra objects '
     'of data and algorithms are released. Centres outside of the image, '
     'numbers of angles that do not fit, unknown methods and missing '
     'packages are refused. Inputs are not changed.',
     ['inputs', 'configurations'],
     'all pixels of sinograms; sizes, centres, angles, pads, methods, '
     'filters, ratios and cores listed; packages stood in for by back '
     'projections of documented geometry',
     'Tests are skipped where the packages are not installed.',
     [RECO], [('gridrec_reconstruction', RECO),
              ('astra_reconstruction', RECO),
              ('__astra_recon_single', RECO)])

prop('C37', 'Listings of hdf files are complete; samples are seen at any gain',
     'The tree of a hdf file names every group and dataset of it once, '
     'below its group, sorted, connected to its siblings, and (unless not '
     'asked for) with the shape of every dataset; the same lines are saved '
     'when a file is given. Files that are not there are refused. Whether a '
     'sinogram shows a sample does not depend on its gain, and a 180-degree '
     'sinogram is judged as the 360-degree one it is half of; other types '
     'are refused.',
     ['inputs', 'configurations'],
     'all subsets of 3 lists of up to 6 groups and datasets on up to 4 '
     'levels; all gains of listed sinograms',
     'Tests only look at two trees and two sinograms.',
     [LOAD, UTIL], [('get_hdf_tree', LOAD), ('_make_tree_body', LOAD),
                    ('_add_branches', LOAD), ('_get_subgroups', LOAD),
                    ('detect_sample', UTIL)])
prop('C38', 'Raw integer images are worth the numbers they hold',
     'Detectors give unsigned integers. Flat-field correction, stitching, '
     'joining, sinograms of helical scans, stripe and blob removal, vertical '
     'reconstruction, loading of speckle stacks with dark-fields, phase '
     'correlation, frequency filters and speckle tracking give for images of '
     '8- or 16-bit integers what they give for the same numbers as floats, '
     'also where the image is darker than the dark-field or a correction is '
     'negative, and leave the images passed in as they were.',
     ['inputs', 'configurations'],
     'all grey levels on both sides of those of the dark-field; listed sizes, '
     'options and integer types',
     'Tests only use float images; wrapped differences need a pixel below '
     'the dark-field or its neighbour.',
     [CONV, CORR, CALC, REMO, VERT, LOAD, UTIL, CORL, PHAS],
     [('stitch_image', CONV), ('generate_full_sinogram_helical_scan', CONV),
      ('flat_field_correction', CORR), ('complex_gradient', CALC),
      ('remove_stripe_based_normalization', REMO),
      ('vertical_reconstruction', VERT), ('get_image_stack', LOAD),
      ('separate_frequency_component', UTIL),
      ('find_local_shifts_umpa', CORL)])
