prop('P01', 'Harmonics arithmetic equals coefficient-wise arithmetic for any history',
 'Any sequence of arithmetic and copying operations on spherical harmonic objects (add, subtract, multiply, divide, scale, power, sum, mean, convolve, flatten, expand, squeeze, copy, zeros) leaves every coefficient, at every degree, order and time, equal to the same arithmetic done coefficient by coefficient. Operations that return a new object leave their operands unchanged, and no two objects share coefficient storage. Degrees, orders and dates that an operation does not address keep their values.',
 ['histories', 'inputs'], 'every operation sequence up to the stated depth over small degrees, rectangular truncations and 1-3 dates, one- and two-operand',
 'The tests read one file and convolve or add once; they sample one history with square truncation.',
 ['harmonics.py'], [('in-place and copying coefficient operations', 'harmonics.py: class harmonics')], BFS, 'model_checking')

prop('P02', 'Derived harmonic quantities always describe the current coefficients',
 'The degree amplitude, the complex form, the maximum degree and order, the number of dimensions and the shape reported by a harmonics object always equal what its present coefficients imply. This holds after any history of modifications, including when the quantity was already read before a modification.',
 ['histories'], 'every sequence of modifying operations interleaved with reads of each derived quantity up to the stated depth',
 'The tests never read a derived quantity twice around a modification.',
 ['harmonics.py', 'degree_amplitude.py'], [('derived properties and their caching', 'harmonics.py: amplitude, ilm, ndim, shape')], BFS, 'model_checking')

prop('P03', 'Selecting, iterating, sorting and merging dates never mixes up months',
 'Indexing, iterating, subsetting to months, merging lists of objects, and sorting by date yield for each date exactly the coefficients (or grid), time and month number that belonged to that date in the input. Requested months that are absent are reported as errors rather than replaced, and nothing is duplicated, dropped or reordered except as documented. This is the same for spherical harmonic and for spatial objects.',
 ['inputs', 'histories'], 'every non-empty subset and order of up to 4 months and every merge order of up to 3 objects, with and without dates',
 'The tests never subset or merge more than one arrangement.',
 ['harmonics.py', 'spatial.py'], [('subset, index, iteration, from_list', 'harmonics.py, spatial.py')], BFS, 'model_checking')

prop('P04', 'Spherical harmonics written to any format read back unchanged',
 'Spherical harmonic data written to ascii, netCDF4 or HDF5 (single files, multi-date files, index files of several files, dictionaries) and read back give the same coefficients, dates, month numbers and truncation, for every combination of degree and order truncation, date presence and number of dates, up to the digits a text format stores. Writing never alters the object that is written, and reading picks the file that was named.',
 ['inputs', 'configurations'], 'every format x compression x dates x truncation x coefficient pattern in the listed product',
 'The tests round-trip one square truncation with one date.',
 ['harmonics.py'], [('readers and writers per format', 'harmonics.py: to_*/from_*')])

prop('P06', 'Grid arithmetic respects the data mask',
 'Any sequence of arithmetic operations on spatial grids (offset, add, scale, mean, sum, minimum, maximum, power, replacing or masking invalid points, flipping, transposing, squeezing, expanding, copying) equals the same arithmetic cell by cell on valid cells. Cells that are invalid in an input stay invalid and hold the fill value, never a number computed from it. Copying operations leave their operands unchanged.',
 ['histories', 'inputs'], 'every operation sequence up to the stated depth over small grids and mask patterns, with one to three dates',
 'The tests contain no spatial object with invalid cells.',
 ['spatial.py'], [('mask handling in each operation', 'spatial.py: class spatial')], BFS, 'model_checking')

prop('P07', 'Spatial grids written to any format read back unchanged',
 'Spatial grids written to ascii, netCDF4 or HDF5 and read back give the same values, invalid cells, coordinates, dates and month numbers, for square and rectangular grids, with and without dates and invalid cells. Writing never alters the object that is written.',
 ['inputs', 'configurations'], 'every format x compression x dates x grid shape x mask pattern in the listed product',
 'No test writes a spatial object and reads it back.',
 ['spatial.py'], [('readers and writers per format', 'spatial.py: to_*/from_*')])

prop('P08', 'Scaling factors minimise the misfit and carry their own errors',
 'The scaling factor computed for each grid cell is the least-squares factor between the two time series of that cell, its error is the residual misfit of the scaled series, and its magnitude is the amplitude of the unscaled series. Cells without valid data stay invalid. Scaling factors written to file and read back, or copied, stay scaling factors with the same values.',
 ['inputs', 'histories'], 'every small time series pair in the listed product, every mask pattern, every format',
 'No test computes a scaling factor.',
 ['spatial.py'], [('scaling factor computation and readers', 'spatial.py: scaling_factors')])

prop('P09', 'Calendar, Julian-day and decimal-year conversions are exact inverses',
 'Conversions between calendar dates, Julian and modified Julian days, decimal years, days since an epoch and parsed date strings agree with the Gregorian calendar for every day, including leap days, century years and times of day, and each is the inverse of the others to within rounding. Scalars and arrays of dates give the same answers.',
 ['inputs'], 'every day of the listed years (leap, common and century years from 1858 to 2105) and listed times of day, scalar and array',
 'The tests check a handful of dates.',
 ['time.py'], [('conversion routines', 'time.py')])

prop('P10', 'GRACE month numbers follow the mission numbering convention',
 'The month number of a calendar date counts months from January 2002 as month 1, calendar dates and month numbers convert into each other without loss, and the documented special months whose midpoint falls in a neighbouring month are adjusted so that no two solutions of a mission share a number. The adjustment changes no other month and accepts any number of months.',
 ['inputs', 'histories'], 'every month from 1990 to 2040 and every arrangement of the special months with their neighbours in series of up to 5 dates',
 'The tests run over one list of file months.',
 ['time.py'], [('month arithmetic and special-case adjustment', 'time.py: calendar_to_grace, grace_to_calendar, adjust_months')])

prop('P11', 'Monthly inventories list every available file once under the right month',
 'For any set of monthly mission files in a directory, the date index, the month search and the month tables report each available month exactly once, with the start, end and mean dates of its file, in order, and report exactly the absent months as missing.',
 ['inputs', 'configurations'], 'every centre x release x dataset with every subset of a small set of months',
 'The tests process downloaded directories only, which cannot be fetched offline.',
 ['grace_date.py', 'grace_find_months.py', 'grace_months_index.py', 'time.py', 'tools.py'], [('directory scan and date parsing', 'grace_date.py, time.py: parse_grace_file')])

prop('P12', 'Every Legendre routine gives the 4-pi normalised associated functions',
 'All provided recursions for associated Legendre functions, the single-degree routine and the zonal polynomials return the 4-pi normalised functions without Condon-Shortley phase, and their derivatives with respect to colatitude away from the poles, for every degree and order up to the requested maxima and every argument from pole to pole. Truncating in order only drops columns, and the argument is not modified.',
 ['inputs', 'configurations'], 'every method x maximum degree 0..12,20,30 (thorough: to 60, orthonormality to 180) x maximum order x listed arguments, dtypes and shapes',
 'The tests compare methods at one degree for one set of angles.',
 ['associated_legendre.py', 'legendre.py', 'legendre_polynomials.py'], [('recursions', 'associated_legendre.py: plm_colombo, plm_holmes, plm_mohlenkamp')])

prop('P13', 'Fourier expansions of Legendre functions reproduce the functions',
 'The Fourier coefficients returned for the associated Legendre functions, summed as the documented cosine or sine series in colatitude, reproduce the normalised Legendre functions of every degree and order. The Fourier coefficients for gradients likewise reproduce the colatitude derivative and the order-over-sine term of each function.',
 ['inputs', 'configurations'], 'every supported maximum degree in the listed range, every degree, order and colatitude of the grid',
 'No test exercises the Fourier expansions.',
 ['fourier_legendre.py'], [('recursion on Fourier coefficients', 'fourier_legendre.py')])

prop('P14', 'All synthesis routines evaluate the same spherical harmonic series',
 'Converting coefficients to a grid, to scattered points or by fast transform gives the value of the spherical harmonic series with the requested unit factors and filter weights at each point. The routines agree with each other and with the definition for every degree, order, truncation and position, including the poles and the antimeridian.',
 ['inputs', 'configurations'], 'every basis coefficient up to the listed degrees (linearity then covers all inputs) x position grid x truncations x filters x units x routine',
 'The tests synthesise one field once.',
 ['harmonic_summation.py', 'clenshaw_summation.py'], [('summation loops', 'harmonic_summation.py, clenshaw_summation.py')])

prop('P15', 'Analysis of a synthesised field returns the original coefficients',
 'Expanding a gridded field into spherical harmonics returns the coefficients the field was synthesised from, for each analysis method that is exact for band-limited fields, and is linear in the field. Truncation, unit factors and the orientation or longitude convention of the grid do not change which coefficient a signal is assigned to.',
 ['inputs', 'configurations'], 'every basis coefficient up to the listed degree x analysis method x grid x unit x truncation',
 'The tests analyse one synthetic field.',
 ['gen_stokes.py', 'gen_harmonics.py'], [('quadrature and FFT analysis', 'gen_stokes.py, gen_harmonics.py')])

prop('P16', 'Gradients are the derivatives of the synthesised field',
 'The zonal and meridional gradients computed from spherical harmonics equal the horizontal derivatives of the synthesised field at every grid point, and the geostrophic currents are the corresponding rotated, latitude-scaled derivatives.',
 ['inputs', 'configurations'], 'every basis coefficient up to the listed degree x grid positions away from the poles x truncation',
 'No test computes a gradient.',
 ['harmonic_gradients.py', 'fourier_legendre.py'], [('gradient summation', 'harmonic_gradients.py')])

prop('P17', 'Point, disc and cap loads carry their mass to the right place',
 'The harmonics of a point mass, a disc or a spherical cap load are, at every degree and order, the zonal expansion of the load rotated to its location, linear in the load, for every unit and way of giving its size. Point and disc loads given as a mass contain exactly that mass at degree zero, several points add up, and a vanishing disc or cap tends to the point load.',
 ['inputs', 'configurations'], 'every position of a grid including the poles and antimeridian x radius x truncation x unit option',
 'The tests compare a few positions at one truncation.',
 ['gen_point_load.py', 'gen_disc_load.py', 'gen_spherical_cap.py'], [('load expansions', 'gen_point_load.py, gen_disc_load.py, gen_spherical_cap.py')])

prop('P18', 'Unit conversions are mutually consistent for every unit and name',
 'For every unit offered, by name, by number or as an attribute, the degree-dependent factors follow their published definition in terms of the Earth parameters and load Love numbers, scale with the metric prefixes, and agree between every way of selecting the unit. Converting to a unit and back leaves coefficients unchanged, and unknown units are refused.',
 ['configurations', 'inputs'], 'every unit name and number x Love number set x truncation',
 'The tests check a few conversion constants.',
 ['units.py'], [('degree-dependent factors', 'units.py: class units')])

prop('P19', 'Love numbers are read and transformed consistently for any frame and degree',
 'For any Love number file layout, maximum degree and reference frame, the numbers of degrees present in the file are those of the file, degrees beyond it are linearly extrapolated, and only degree one depends on the chosen frame. Transforming between frames is reversible and independent of the route taken.',
 ['inputs', 'configurations'], 'every shipped file x column choice x maximum degree around the file end x frame and every chain of two frame changes',
 'The tests read one file and compare degree one in a few frames.',
 ['read_love_numbers.py'], [('reader, extrapolation, frame change', 'read_love_numbers.py')])

prop('P20', 'Smoothing kernels have unit mean and the specified half-width',
 'Gaussian weights are one at degree zero (up to the documented normalisation), non-negative, non-increasing with degree and with radius, and match the spectral coefficients of the Gaussian averaging function, which falls to one half at the given radius. The averaging kernel of a region weighs each coefficient by signal and error variance as published, equals the mean over the region when there are no errors, and leaves its inputs unchanged.',
 ['inputs', 'configurations'], 'every maximum degree in the listed range x listed radii',
 'No test checks a kernel for more than one radius.',
 ['gauss_weights.py', 'gen_averaging_kernel.py'], [('recursion for Gaussian weights', 'gauss_weights.py')])

prop('P21', 'Destriping is linear and removes only correlated high-order errors',
 'The destriping filter leaves the orders and degrees outside its range untouched, removes from each order and parity exactly the part its moving polynomial window fits, and is linear in the coefficients. Running it on an object does not change that object and keeps its dates.',
 ['inputs', 'configurations'], 'every basis coefficient and every parity-polynomial pattern up to the listed degrees and truncations',
 'No test runs the destriping filter.',
 ['destripe_harmonics.py'], [('moving polynomial window', 'destripe_harmonics.py')])

prop('P22', 'Regressions recover the model that generated the series',
 'Fitting a time series that follows the fitted model exactly returns the generating polynomial, step and periodic terms with zero residual, for any sampling of dates; the residuals of any series are orthogonal to the fitted terms and the reported statistics follow from them. Amplitude and phase of a sine/cosine pair describe the same oscillation, and inputs are not modified.',
 ['inputs', 'configurations'], 'every polynomial order x cycle set x step/break choice x sampling pattern x basis response',
 'No test runs a regression.',
 ['time_series/regress.py', 'time_series/piecewise.py', 'time_series/fit.py', 'time_series/amplitude.py'], [('design matrix and statistics', 'time_series/')])

prop('P23', 'Smoothing and spectra of time series are exact on their model signals',
 'Moving-window smoothing returns the generating trend for a signal made of that trend and the modelled seasonal cycle, its outputs line up with the dates they describe, and Savitzky-Golay filtering reproduces polynomials and their derivatives. The periodogram peaks at the frequency of a pure oscillation.',
 ['inputs', 'configurations'], 'every window length x polynomial degree x sampling pattern in the listed product',
 'No test smooths a series.',
 ['time_series/smooth.py', 'time_series/savitzky_golay.py', 'time_series/lomb_scargle.py'], [('windowed fits', 'time_series/')])

prop('P24', 'The sea level response conserves mass and is confined to the ocean',
 'For any land load, the gravitationally consistent sea level response carries exactly the opposite mass of the load, is zero on land, is linear in the load and equals the published iteration of the sea level equation up to its tolerance. Enabling rotational feedback, polar feedback or a different solid Earth changes the distribution but not the total mass.',
 ['inputs', 'configurations'], 'every low-degree basis load and point load x land mask pattern x iteration limit x rotation option in the listed product',
 'The one existing test compares totals for a single load.',
 ['sea_level_equation.py'], [('iteration and mass constraint', 'sea_level_equation.py')])

prop('P25', 'Land and ocean functions are complementary',
 'The spherical harmonics of the ocean function and of the land function of the same mask add up to a uniform unit field; the degree-zero term is the area fraction, and simplifying or masking options only remove the cells they name.',
 ['inputs', 'configurations'], 'every mask pattern on small grids x truncation x option',
 'No test computes an ocean function.',
 ['ocean_stokes.py', 'tools.py'], [('mask to harmonics', 'ocean_stokes.py')])

prop('P26', 'Mission solution files are read into the right coefficient, date and frame',
 'For every supported processing centre, release and file layout, each coefficient and error of a solution file lands at its degree and order, repeated or missing records do not corrupt others, dates come from the file metadata, and tide-system, pole-tide or drift corrections are applied as documented only when requested.',
 ['inputs', 'configurations'], 'every centre x release x layout with generated files over listed truncations and record permutations',
 'The tests need downloads that are not available; only one packaged file is read.',
 ['read_GRACE_harmonics.py', 'read_gfc_harmonics.py'], [('record parsing', 'read_GRACE_harmonics.py, read_gfc_harmonics.py')])

prop('P27', 'Satellite laser ranging and geocenter series keep value, date and month',
 'Every supported series of low-degree harmonics or geocenter coefficients is read so that each month carries its own value, uncertainty, date and month number in the documented convention, for any number of records and header lines.',
 ['inputs', 'configurations'], 'every supported product layout with generated files of 1-3 records over special and ordinary months',
 'The tests need downloads that are not available.',
 ['SLR/C20.py', 'SLR/C30.py', 'SLR/C40.py', 'SLR/C50.py', 'SLR/CS2.py', 'geocenter.py', 'read_SLR_harmonics.py'], [('record parsing per product', 'SLR/, geocenter.py')])

prop('P28', 'Glacial isostatic adjustment models are read rate for rate',
 'Every supported model layout yields the rate coefficients of the file at their degree and order, truncated or zero padded as requested, with its title and citation; drifts built from a model are the rate times the elapsed time from the stated reference.',
 ['inputs', 'configurations'], 'every supported layout x truncation with generated files of every basis coefficient',
 'The tests read one packaged model.',
 ['read_GIA_model.py', 'harmonics.py'], [('record parsing per model', 'read_GIA_model.py')])

prop('P29', 'Low-degree replacement changes only the selected coefficients and months',
 'When monthly solutions are combined with external low-degree series, the oblateness and geocenter of every month, and the other selected coefficients of every single-accelerometer month, take the value of that month from the chosen series of that release; every other coefficient stays as read. Months that an archive or series does not hold are reported instead of silently kept or shifted, unless missing geocenter is to be modelled from a fit to the rest of its series. Atmospheric steps and pole tide drift are corrected in exactly the months and products they belong to, and the result names its months, files and corrections.',
 ['inputs', 'configurations'], 'every choice and pair of choices of replacement series (every combination in the thorough tier) over generated archives of up to 8 months, every pattern of unavailable months, truncations, listings, atmospheric and pole tide options',
 'The tests need downloads that are not available.',
 ['grace_input_months.py', 'grace_date.py'], [('replacement loop', 'grace_input_months.py'), ('atmospheric steps', 'grace_input_months.py: read_ecmwf_corrections')])

prop('P30', 'A failed or partial download never damages or fakes a local file',
 'Whatever failure interrupts a download (no connection, refused access, missing file, truncated, stalled or dropped body, checksum mismatch, full disk, killed process), it is reported, an existing local copy keeps its content and date, and no partial file is left under the final name. A successful download stores exactly the remote bytes with the requested mode, dated as the remote file where the file server reports a date, a local copy with the same content is not rewritten, and an upload sends exactly the local bytes over a protected channel.',
 ['fault_sequences', 'histories'], 'every fault at every step (every byte of short bodies) of each transfer routine, with an absent, a different and an identical earlier copy, in sequences of up to two transfers',
 'The tests download only when the network works.',
 ['utilities.py'], [('transfer routines', 'utilities.py: from_http, from_ftp, from_drive, from_figshare, from_csr, from_gfz, from_gsfc, to_figshare')], FAULT, 'fault_enumeration')

prop('P31', 'Catalogue searches return every matching granule aligned with its metadata',
 'A catalogue search returns each matching granule that has an address at the requested endpoint exactly once, over any number of result pages and however the last page is announced, with names, addresses and modification times that belong together, and applies exactly the requested mission, centre, release, level, product, solution, version, provider and date filters. A page that cannot be read completely is reported, never taken for the end of the results.',
 ['inputs', 'fault_sequences'], 'every content of small catalogues x page size x paging style x endpoint, every parameter combination against a full catalogue, every fault at every page',
 'The tests cannot reach the catalogue.',
 ['utilities.py'], [('paging and link filtering', 'utilities.py: cmr, cmr_filter_json, cmr_metadata, cmr_metadata_json'), ('search terms', 'utilities.py: cmr_product_shortname, cmr_readable_granules, isoformat, get_unix_time')], FAULT, 'fault_enumeration')

prop('P32', 'File name patterns select exactly the requested product',
 'The patterns used to list mission files accept every file name of the requested centre, release, product, mission, solution and version, compressed or not, and reject those of every other monthly product and of altered names. Without a mission or version they accept all missions and versions, dealiasing products are told apart by product and mission only, and unknown centres, products and missions are refused.',
 ['configurations', 'inputs'], 'every centre x release x dataset x mission x solution x version against the names of every other combination',
 'The tests compile one pattern.',
 ['utilities.py'], [('pattern construction', 'utilities.py: compile_regex_pattern')])

prop('P37', 'Server listings name every item once with its own date',
 'A directory listing of a web, data drive, file, mascon or model server returns every item of the directory once, in order or sorted as requested, each with its own modification time in UTC whatever the local zone (none where the server gives none), reduced to exactly the items that match the pattern. A listing that cannot be read completely, or a refused login, is reported and never returned as a shorter listing.',
 ['inputs', 'configurations', 'fault_sequences'], 'every ordered choice of up to 3 (quick) or 4 (thorough) of 7 items x pattern x sorting x local zone, every cut of each response',
 'The tests list directories only when the network works.',
 ['utilities.py'], [('listings', 'utilities.py: http_list, ftp_list, drive_list, gsfc_list, icgem_list, check_connection, check_ftp_connection')], FAULT, 'fault_enumeration')

prop('P38', 'Logins use the right credentials at the right host',
 'A login takes the credentials of the requested host from the netrc file, else the given ones, the environment or the user, tries each pair once, asks again up to the number of retries naming the host and the user, and returns an opener only after the server accepted the pair. Without an authorization header credentials and cookies go only to their own host, and tokens and temporary keys are requested with exactly these credentials and returned as the server gave them, or the failure is reported.',
 ['configurations', 'fault_sequences', 'histories'], 'every combination of credential sources x answers x retries, every server behaviour in sequences of up to 3 tries',
 'The tests log in only where credentials and a network exist.',
 ['utilities.py'], [('credentials', 'utilities.py: attempt_login, build_opener, check_credentials, get_token, list_tokens, revoke_token, s3_client, drive_list, from_drive')], FAULT, 'fault_enumeration')

prop('P33', 'Path, address, checksum, time and file helpers are exact and lose nothing',
 'Helpers that compute checksums, resolve data paths, split addresses, read option lines and time strings (UTC unless they name an offset, whatever the local zone), round numbers and report the repository state return the mathematically defined answer for every input and from every working directory. Copying or moving a file never loses its content when interrupted at any point, and concurrent requests for a unique file each get one of their own without overwriting anything, or an error where none can be made.',
 ['inputs', 'schedules', 'crash_points'], 'every input of the listed alphabets and lengths, every source line as an interruption or interleaving point of up to three writers',
 'The tests touch a few values.',
 ['utilities.py'], [('helpers', 'utilities.py: get_hash, get_data_path, url_split, s3_bucket, s3_key, convert_arg_line_to_args, get_unix_time, isoformat, even, ceil, copy, create_unique_file, get_git_status, get_git_revision_hash, import_dependency, reify')])

prop('P34', 'Mascon gridding and point conversion preserve mascon values',
 'Each mascon covers the half-open cell given by its centre and spans (or bounds), in either longitude convention and across the date line: gridding gives every grid cell the value of the mascon containing it and zero elsewhere, and averaging a grid gives every mascon the cosine-latitude weighted mean of the grid points it contains (JPL mascons without any points are masked and zero), together with its centre. Values laid out on a grid and averaged again return unchanged, and the arrays of the caller are never modified. Mascons wider than 180 degrees other than polar caps are not specified.',
 ['inputs', 'configurations'], 'every listed mascon layout (both conventions, date line, caps, equator, nested rows) x grid extent, spacing and orientation x basis of mascon values and single grid cells',
 'No test converts mascons; cells on edges, across the date line or at the poles go wrong only for particular layouts and grids.',
 ['mascons.py'], [('grid to GSFC mascons', 'mascons.py:to_gsfc'), ('grid to JPL mascons', 'mascons.py:to_jpl'), ('GSFC mascons to grid', 'mascons.py:from_gsfc'), ('JPL mascons to grid', 'mascons.py:from_jpl')])

prop('P35', 'Grid helpers move data without changing the field they describe',
 'Shifting a grid to any of its longitudes, wrapping longitudes and interpolating keep every value attached to its position, for any origin, spacing and (for nearest neighbors) masked cells. The ocean mask of a grid holds exactly the positions whose nearest cell of the land-sea mask is ocean, a lake or an ice shelf when those are asked for, and adds to the cells already masked.',
 ['inputs', 'configurations'], 'every grid size and origin of the listed range x interpolation order x mask pattern',
 'No test exercises the grid helpers.',
 ['tools.py'], [('grid manipulation', 'tools.py')])

prop('P36', 'Geocenter vectors and degree-one harmonics describe the same motion',
 'Converting between geocenter Cartesian motion and degree-one harmonics is reversible for any radius, and any sequence of geocenter operations equals the same arithmetic on the three components, keeping each with its own axis and date. Copies keep the errors, dates and radius of the object and share no storage with it.',
 ['histories', 'inputs'], 'every operation sequence up to the stated depth over basis vectors and 1-3 dates',
 'No test manipulates geocenter objects.',
 ['geocenter.py'], [('component arithmetic and conversion', 'geocenter.py: class geocenter')], BFS, 'model_checking')

prop('P39', 'Conversion programs evaluate and analyse exactly the requested field',
 'The program that combines harmonics into grids writes, in every cell of the requested grid and for every date, the spherical harmonic series of the input in the requested units, truncation, smoothing, filtering, ocean redistribution and mean removal; the program that converts grids writes the coefficients of the input field. This holds for every file format, grid spacing and interval, and invalid cells count as zero.',
 ['inputs', 'configurations'], 'every option of the listed products x file format x dates; every output value compared with the defining sums',
 'No test runs the programs.',
 ['scripts/combine_harmonics.py', 'scripts/convert_harmonics.py'], [('combine harmonics to grids', 'scripts/combine_harmonics.py'), ('convert grids to harmonics', 'scripts/convert_harmonics.py')])

prop('P40', 'Dealiasing programs keep every product, hour and day of the archives',
 'The AOD1B programs write, for every daily file of every monthly archive and every hour of the release, the degree-one (as geocenter in mm) and oblateness coefficients of the requested product; the monthly average of a GRACE month is the mean over all hours of all of its days and is written (and listed in the date file and index) exactly when every day is present; the uplift program evaluates the elastic deformation of every hour. Existing outputs are kept when newer than the archives unless clobbering is requested.',
 ['inputs', 'configurations', 'histories'], 'release x product x file format x packing x order of members x spans crossing months and years x every missing day; every value compared',
 'No test runs the programs.',
 ['scripts/aod1b_geocenter.py', 'scripts/aod1b_oblateness.py', 'scripts/dealiasing_monthly_mean.py', 'scripts/dealiasing_global_uplift.py'],
 [('geocenter series', 'scripts/aod1b_geocenter.py'), ('oblateness series', 'scripts/aod1b_oblateness.py'), ('monthly averages', 'scripts/dealiasing_monthly_mean.py'), ('crustal uplift', 'scripts/dealiasing_global_uplift.py')])

prop('P41', 'Map programs write exactly the requested anomalies of the archive',
 'The mean program writes the exact mean of the requested months of the archive, and the map programs write, for every available month and every cell of the requested grid, the anomaly with the requested truncation, low-degree and geocenter replacements, smoothing, filtering, redistribution, removed fields and units. The error programs write the residual errors of the smoothed series propagated to the grid, and the scaled maps write the kernel-scaled anomalies with their errors, with the same values in every file format.',
 ['inputs', 'configurations'], 'every option of the listed products x file format x months; every output value compared with the defining sums over the archive',
 'No test runs the programs.',
 ['scripts/grace_mean_harmonics.py', 'scripts/grace_spatial_maps.py', 'scripts/grace_spatial_error.py', 'scripts/scale_grace_maps.py'],
 [('mean field', 'scripts/grace_mean_harmonics.py'), ('anomaly maps', 'scripts/grace_spatial_maps.py'), ('error maps', 'scripts/grace_spatial_error.py'), ('scaled maps', 'scripts/scale_grace_maps.py')])

prop('P42', 'Regression programs fit every cell and label every term correctly',
 'The regression programs fit each grid cell of the monthly maps with the requested polynomial or break, annual, semi-annual, tidal aliasing and custom periods, and write each coefficient, amplitude, phase, error and fit statistic under its own name. This holds for every order in which the periods are listed, every set of months, grid and file format, and the input maps are left as they were. A missing month or break is reported and nothing is written.',
 ['inputs', 'configurations'], 'every order and choice of periods x polynomial order x break x grid x file format; every output value compared with the normal equations',
 'No test runs the programs.',
 ['scripts/regress_grace_maps.py', 'scripts/piecewise_grace_maps.py'],
 [('polynomial and seasonal maps', 'scripts/regress_grace_maps.py'), ('piecewise maps', 'scripts/piecewise_grace_maps.py')])

prop('P43', 'Mascon programs solve the stated least squares problem',
 'The mascon program writes, for every mascon and month, the mass of the least squares combination of mascon kernels that fits the corrected anomalies over the requested degrees and orders, with the propagated satellite error and the area; the sensitivity program writes the response of each mascon to every coefficient and point. Reconstructed fields are the mascon kernels scaled to these masses, and removing them leaves exactly the rest. This holds for every fit method, solver, truncation, correction and file format.',
 ['inputs', 'configurations', 'histories'], 'every option of the listed products x number of mascons x solver x format, solve-reconstruct-remove sequences; every value compared with the pseudo-inverse of the defining problem',
 'No test runs the programs.',
 ['scripts/calc_mascon.py', 'scripts/calc_sensitivity_kernel.py', 'scripts/mascon_reconstruct.py'],
 [('mascon series', 'scripts/calc_mascon.py'), ('sensitivity kernels', 'scripts/calc_sensitivity_kernel.py'), ('reconstruction', 'scripts/mascon_reconstruct.py')])

prop('P44', 'Degree one programs solve the stated balance of ocean mass',
 'The degree one program writes, for every month, the geocenter coefficients for which the ocean part of the corrected field has the degree one of the land-derived sea level (uniform or fingerprint) plus the difference of the ocean models, with the rebound and atmospheric steps restored, the mean removed, and the dealiasing restored in the second file; iterations and components are written in the same units. The uncertainty program writes the mean and scatter of the solutions of the perturbed months. This holds for every truncation, mask, solver, Love number, correction and file format, and the files are readable by the toolkit.',
 ['inputs', 'configurations', 'schedules'], 'every option of the listed products x mask x solver x iteration x sea level x format, tables of random draws; every coefficient compared with a solution of the defining sums',
 'No test runs the programs.',
 ['scripts/calc_degree_one.py', 'scripts/monte_carlo_degree_one.py'],
 [('degree one solution', 'scripts/calc_degree_one.py'), ('uncertainties', 'scripts/monte_carlo_degree_one.py')])

prop('P45', 'Runs with a log leave one file telling what was done',
 'A processing program run with the log option always leaves exactly one new log file, never replacing an earlier one: after success it holds the arguments and every output file, after a failure it is named as failed and holds the arguments and the error. Without the option nothing is written beside the results, and the result of the run and its exit status are the same in both cases.',
 ['histories', 'configurations', 'fault_sequences'], 'program x every history of up to three runs (outputs or exceptions of any kind) x verbosity x log files already there',
 'No test runs the programs, and none makes one fail.',
 ['scripts/calc_mascon.py', 'scripts/grace_spatial_maps.py', 'scripts/calc_degree_one.py', 'utilities.py'],
 [('logs of each program', 'scripts/*.py: output_log_file, output_error_log_file'), ('unique files', 'utilities.py: create_unique_file')], FAULT)

prop('P46', 'Mirrors of the data archives converge and survive every interruption',
 'After a run of a sync program that reports success, every file of the requested products is in the local directory with the contents and modification time of the archive, the index files name exactly the files to be used, files newer locally are kept unless clobbering or checksums ask otherwise, and files that are not of the archive are never touched. When a run only lists, fails or is killed at any point, no file is left half done: each is either the earlier or the complete new version, and the next run repairs everything.',
 ['histories', 'fault_sequences', 'crash_points', 'configurations'], 'program x history of remote changes x options x every network fault, and a kill before every call that touches a file or a connection',
 'No test runs the programs; the archives are not reachable from the tests, and no test interrupts a transfer.',
 ['scripts/gfz_isdc_grace_ftp.py', 'scripts/podaac_cumulus.py', 'scripts/cnes_grace_sync.py', 'scripts/gfz_icgem_costg_ftp.py', 'scripts/itsg_graz_grace_sync.py', 'scripts/esa_costg_swarm_sync.py', 'scripts/gfz_isdc_dealiasing_ftp.py', 'utilities.py'],
 [('synchronization', 'scripts/*_sync.py, scripts/*_ftp.py, scripts/podaac_cumulus.py'), ('transfers', 'utilities.py: from_http, from_ftp, _store_buffer')], FAULT)

prop('P47', 'The sea level program solves every field of the file it is given',
 'The sea level program writes, for every date of the input file, the sea level fingerprint of the load truncated to the requested degree on the grid of the mask, with land, lakes and small islands left out and ice shelves counted as ocean, for every Love number, tide, rotation and iteration option and every file format. The resolution program lists the shortest wavelength of every degree asked for.',
 ['inputs', 'configurations'], 'every option of the listed products x mask x format x dates; every ocean cell compared with the defining iteration',
 'No test runs the programs.',
 ['scripts/run_sea_level_equation.py', 'scripts/calc_harmonic_resolution.py'],
 [('sea level fingerprints', 'scripts/run_sea_level_equation.py'), ('resolution of a truncation', 'scripts/calc_harmonic_resolution.py')])

prop('P48', 'Series programs report and draw every month of the series',
 'The summary program lists every coefficient, amplitude, phase, error and fit statistic of a mass series under its own name, whatever the order of the periods. The drawing programs for mass and geocenter series draw, for every file given, the value of every month asked for that is in the file (anomalies from the stated reference, in the stated units, with its error band), leave the gap between the missions and missing months empty, and save each figure once under the stated name.',
 ['inputs', 'configurations'], 'every order of periods x fit x stream, sets of months x options x number of series; every number and every vertex of a curve compared with the input series',
 'No test runs the programs.',
 ['scripts/quick_mascon_regress.py', 'scripts/quick_mascon_plot.py', 'scripts/geocenter_processing_centers.py', 'scripts/geocenter_compare_tellus.py', 'scripts/geocenter_ocean_models.py', 'scripts/geocenter_monte_carlo.py'],
 [('regression summaries', 'scripts/quick_mascon_regress.py'), ('mass series', 'scripts/quick_mascon_plot.py'), ('geocenter series', 'scripts/geocenter_*.py')])

prop('P49', 'Choices in the notebook widgets always describe an existing data set',
 'After every sequence of choices in the notebook widgets, the release and product offered and selected exist for the chosen processing center, the months offered are exactly those available locally for that data set, the maximum degree is that of the release, the order never exceeds the degree, and the default corrections follow the release and product; choices that do not depend on the changed one are kept. The files to remove are the files named in their label, the paths and unit, interval and format codes are those of the labels, and the levels of a color bar cover the chosen range in the chosen steps.',
 ['histories', 'inputs', 'configurations'], 'every state of the widgets reachable by choices from a dozen starting data sets over archives with missing data sets; every sequence of up to four file dialogs and typed names',
 'The tests never open the widgets, whose packages are not installed.',
 ['tools.py'],
 [('notebook widgets', 'tools.py: widgets'), ('color bars', 'tools.py: colormap')])

prop('P50', 'Color tables read from files are the tables of the files',
 'A color table read from a file takes at every value the color interpolated between the ends of the slice that holds it, in either color model, with the background, foreground and no-data colors of the file when they are asked for, and is found under the name of the file. Custom color maps take the colors of their definitions for every number of slices.',
 ['inputs', 'configurations'], 'color model x slices, steps and colors x flags x layout of the file; every entry of the lookup table',
 'No test reads a color table.',
 ['tools.py'],
 [('color tables', 'tools.py: from_cpt'), ('custom color maps', 'tools.py: custom_colormap')])

prop('P51', 'The raster program evaluates the requested anomalies at every cell',
 'The raster program writes, for every available month and every cell of a grid with the requested projection, bounds and spacing, the anomaly of the archive at the center of the cell (at its geocentric latitude) with the requested truncation, replacements, smoothing, filtering, redistribution, removed fields and units, and masks exactly the cells outside of the smoothed land. No cell lies outside of the bounds.',
 ['inputs', 'configurations'], 'projection x bounds x spacing x months x corrections x format; every cell of every month compared with the defining sums',
 'No test runs the program.',
 ['scripts/grace_raster_grids.py', 'clenshaw_summation.py'],
 [('raster grids', 'scripts/grace_raster_grids.py'), ('sums at points', 'clenshaw_summation.py: clenshaw_summation')])

prop('P52', 'Products say truthfully how they were made',
 'A product that states its center, release and product, degree and order, Earth model, Love numbers, reference frame, smoothing, filtering, glacial rates, low degree series, land mask, iterations or solver states those it was made with, its lineage names exactly the files it was made from (months, mean field, removed fields, ocean model), and its variables carry the name and units of their values; smoothing, filtering, rates and replaced coefficients are stated if and only if they were applied. A month of a container that carries a file name carries the name of the file it was read from, after any sequence of merging, sorting, selecting and iterating, and grids merged from a list can be stored and read again.',
 ['inputs', 'configurations', 'operation sequences'], 'program x every option that is stated x format; every order, mix of file and memory, and sequence of selections of up to three months',
 'The tests look at no attribute of a product and merge no lists that mix files and memory.',
 ['harmonics.py', 'spatial.py', 'grace_input_months.py', 'scripts/grace_spatial_maps.py', 'scripts/grace_spatial_error.py', 'scripts/grace_mean_harmonics.py', 'scripts/combine_harmonics.py', 'scripts/convert_harmonics.py', 'scripts/run_sea_level_equation.py', 'scripts/calc_degree_one.py'],
 [('statements of products', 'scripts/*.py: attributes; grace_input_months.py: attributes'), ('file names of months', 'harmonics.py, spatial.py: from_list, index, subset, __next__')])
prop('P53', 'The map programs draw the grid of the file at its place',
 'Each pixel of a map or movie frame has the (interpolated, scaled, reduced) value of the grid at that position and is blank exactly where the grid is, for files in every format, orientation (latitudes up or down, longitudes from 0 or from -180 degrees), spacing and interval, by nearest, linear and cubic interpolation; the projections, limits, color limits or boundaries, colors, transparency, contours (levels, zero in red, the area mean in blue, drawn at the positions of the cells), basins, coastlines, margins, grid lines, scale bars, titles, labels and dates are those asked for, and the color bar states the levels; a figure is written under the requested name, format, resolution and mode, and a movie holds one frame for each month with its own field and date.',
 ['inputs', 'configurations', 'histories'], 'every map and movie program x interpolation x interval x origin, with the other options in turn (every option value with every program in the thorough tier)',
 'The tests draw no maps; a half-cell shift, a swapped hemisphere or a stale contour shows only in the picture.',
 ['scripts/plot_global_grid_maps.py', 'scripts/plot_AIS_grid_maps.py', 'scripts/plot_GrIS_grid_maps.py', 'scripts/plot_AIS_regional_maps.py', 'scripts/plot_QML_grid_3maps.py', 'scripts/plot_AIS_GrIS_maps.py', 'tools.py'],
 [('map programs', 'scripts/plot_*maps.py: plot_grid'), ('movie programs', 'scripts/plot_*movie.py: animate_grid'), ('grids on other coordinates', 'tools.py: shift_grid, interp_grid')])
