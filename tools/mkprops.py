#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


L, S = 'lib/marc/', 'src/'

prop('P01', 'Simple Cylindrical maps are linear in the requested lat/lon window',
     'In every Simple Cylindrical map the latitude of a pixel depends only on its line and its longitude only on its sample: '
     'pixel centres divide the requested latitude window (bottom line lowest, equal steps of the chosen latitude type, planetocentric or planetographic) '
     'and the requested longitude window (wrapping through 360 when the low bound exceeds the high bound, the full circle when both are equal, increasing to the left on prograde and to the right on retrograde bodies) into equal steps. '
     'Every pixel of the map is plotted.',
     ['inputs', 'configurations'],
     'all body shapes and rotation senses, latitude windows, longitude windows (wrapping, full, default), latitude types, map sizes',
     'The repository has one end-to-end map of this kind and never looks at its pixel values; there is no unit test of this projection.',
     [L + 'SimpleCylindrical.cpp', L + 'MapFactory.cpp', L + 'MapFactory_t.cpp', L + 'plot_info.h', S + 'parse.yy'],
     [('SimpleCylindrical::plot_map / get_longitude', L + 'SimpleCylindrical.cpp'), ('longitude window normalisation', L + 'SimpleCylindrical.cpp')],
     ['pixels of LATITUDE and LONGITUDE planes in the FITS file'])

prop('P02', 'Mercator maps follow the conformal law of the ellipsoid',
     'In every Mercator map longitudes cover 0 to 360 degrees in equal steps per sample, and lines are equally spaced in the isometric latitude of the ellipsoid, '
     'with the equator at the middle of the map and one unit of isometric latitude spanning the same number of pixels as one radian of longitude. '
     'Latitudes therefore increase strictly with the line number, are antisymmetric about the equator, and never leave the open interval between the poles (maps more than about twelve times higher than wide, whose edges would lie beyond the representable latitudes, are not covered).',
     ['inputs', 'configurations'],
     'all body shapes (flattening 0 to large), rotation senses and map sizes/aspect ratios for which the map is representable',
     'The unit test checks only the distortion factor at sampled latitudes on one body; the end-to-end test never looks at pixels.',
     [L + 'Mercator.cpp', L + 'root_find.cpp', L + 'OblateSpheroid.cpp'],
     [('Mercator::plot_map / mercator_x', L + 'Mercator.cpp'), ('bracketed root finding', L + 'root_find.cpp')],
     ['pixels of LATITUDE and LONGITUDE planes'])

prop('P03', 'Polar Stereographic maps are conformal about the chosen pole',
     'In every Polar Stereographic map the pole is at the centre of the map, the distance of a pixel from the centre determines its latitude through the conformal stereographic law of the ellipsoid, '
     'scaled so that the requested limiting latitude (the equator by default) lies at the nearest map edge. The direction of a pixel from the centre determines its longitude linearly, with the sense given by the pole and by the rotation of the body, '
     'and every pixel is plotted, including those beyond the limiting latitude.',
     ['inputs', 'configurations'],
     'both poles, all limiting latitudes, body shapes, rotation senses and (non square, odd and even) map sizes',
     'The unit test checks only the distortion factor on one body; the end-to-end test never looks at pixels.',
     [L + 'PolarStereographic.cpp', L + 'root_find.cpp', L + 'OblateSpheroid.cpp', S + 'parse.yy'],
     [('PolarStereographic::plot_map / stereo_rho', L + 'PolarStereographic.cpp')],
     ['pixels of LATITUDE and LONGITUDE planes'])

prop('P04', 'Orthographic maps show the spheroid as seen from infinity',
     'In every Orthographic map a pixel is plotted exactly when its line of sight, parallel to the direction given by the sub-observation point and rotated by the position angle, meets the spheroid, '
     'and its latitude and longitude are those of the nearer intersection. The scale is the requested number of kilometres per pixel (default: the body fills about 90% of the smaller map dimension), '
     'and the body centre is at the map centre, at the requested sample and line, or placed so that the requested latitude and longitude are at the map centre.',
     ['inputs', 'configurations'],
     'all sub-observation points incl. poles, position angles, scales, centres, body shapes, rotation senses, map sizes',
     'The unit test checks only the distortion; the end-to-end test never looks at pixels (a sign error in the intersection went unnoticed until fixed here).',
     [L + 'Orthographic.cpp', L + 'OblateSpheroid.cpp', L + 'Geometry.cpp', S + 'parse.yy'],
     [('Orthographic::plot_map / map_parameters', L + 'Orthographic.cpp'), ('body2obs rotations', L + 'Orthographic.cpp')],
     ['pixels of LATITUDE and LONGITUDE planes; blank pixels'])

prop('P05', 'Virtual planes hold the true spheroid viewing and illumination cosines',
     'At every mapped point the MU, MU0 and PHASE planes hold, respectively, the cosine of the emission angle for an observer at the given finite range and sub-observation point, of the incidence angle for the given sub-solar point, and of the phase angle between them, '
     'all measured against the local surface normal of the oblate spheroid. LATITUDE planes hold planetocentric or planetographic latitude as requested (related by tan(graphic) = (a/c)^2 tan(centric)) and LONGITUDE planes longitudes in [0, 360], in degrees. '
     'The values do not depend on the projection used to look at them.',
     ['inputs', 'configurations'],
     'all body shapes, observer and sun positions (polar, co-located, opposite), ranges, projections and plane combinations',
     'Unit tests check a handful of latitudes on one body, and mu only at a few angles; the quantifier over bodies, points and ranges is out of reach.',
     [L + 'OblateSpheroid.cpp', L + 'MuImage.cpp', L + 'Mu0Image.cpp', L + 'CosPhaseImage.cpp', L + 'LatitudeImage.cpp', L + 'LongitudeImage.cpp', L + 'VirtualImage.cpp'],
     [('OblateSpheroid::mu/mu0/cos_phase/graphic_latitude', L + 'OblateSpheroid.cpp')],
     ['pixels of virtual planes in the FITS file'])

prop('P06', 'Integer maps recover physical values to within one quantum',
     'For every integer map of latitudes, longitudes or cosines, applying the recorded scale and offset (BSCALE and BZERO, or the values recorded per plane in HISTORY for cubes) to a stored pixel yields the physical value to within one quantum of the stored type. '
     'A wider integer type never gives a worse approximation, the scaled values never overflow the stored type, and floating point maps are stored unscaled.',
     ['inputs', 'configurations'],
     'all integer and floating point map types, all virtual plane kinds, projections and single- or multi-plane maps',
     'The unit test checks two fixed data ranges of the scale computation in isolation and never a stored pixel.',
     [L + 'scale_and_offset.h', L + 'VirtualImage.cpp', S + 'SourceImageFactory.cpp', S + 'MapCommand.cpp', S + 'MapCommand_t.cpp'],
     [('scale_and_offset', L + 'scale_and_offset.h'), ('VirtualImage::read_data', L + 'VirtualImage.cpp')],
     ['stored pixels, BSCALE/BZERO cards, HISTORY cards'])

prop('P07', 'DATA_MIN and DATA_MAX decide exactly which data is plotted',
     'A map pixel holds the source value if and only if that physical value lies in the closed interval given by DATA_MIN and DATA_MAX (defaulting to the natural range of the plane, or, for a plane mapped from a single photo, the range recorded in its header); every other pixel holds the blank value, which is NaN for floating point maps and the requested DATA_BLANK value (default 0) for integer maps. '
     'The limits of one plane have no influence on any other plane.',
     ['inputs', 'configurations'],
     'all limits (partial, one sided, empty, outside of the data), plane kinds, map types, blank values',
     'The only end-to-end test uses one pair of limits and never looks at pixels.',
     [L + 'MapFactory_t.cpp', L + 'plot_info.h', L + 'extrema.h', S + 'SourceImageFactory.cpp', S + 'parse.yy', S + 'MapCommand_t.cpp'],
     [('MapFactory::plot', L + 'MapFactory_t.cpp'), ('SourceImageFactory limits', S + 'SourceImageFactory.cpp')],
     ['stored pixels, BLANK card'])

prop('P08', 'DATAMIN, DATAMAX and plane notes state the extrema actually plotted',
     'Whenever a map file carries DATAMIN and DATAMAX, they equal the smallest and largest physical value among all plotted (non blank) pixels of all planes in the primary image, whatever the map type and scaling. '
     'A map with plotted pixels carries them. For cubes of several planes, which record their scales per plane, they refer to the stored values. A plane on which nothing was plotted, and no other, is reported by its number in a warning.',
     ['inputs', 'configurations'],
     'all map types, projections, plane counts and kinds, data ranges and blank patterns',
     'The existing tests exercise the extrema container on its own, never against the pixels of a written map.',
     [L + 'extrema.h', L + 'plot_info.h', L + 'MapFactory_t.cpp', S + 'MapCommand.cpp', S + 'MapCommand_t.cpp'],
     [('extrema::update', L + 'extrema.h'), ('MapCommand DATAMIN/DATAMAX', S + 'MapCommand_t.cpp')],
     ['DATAMIN/DATAMAX cards and pixels'])

prop('P09', 'Photos are sampled at the pixel that images the mapped surface point',
     'Every map pixel plotted from a photo holds the value of exactly that photo pixel into which a pinhole camera with the stated geometry (sub-observation point, range, position angle, pixel scale given as focal length and scale, arcseconds or kilometres per pixel, body centre or centre latitude/longitude, optical axis, optional lens aberration correction) projects the surface point of the map pixel. '
     'No photo value appears at a surface point that the camera does not image there.',
     ['inputs', 'configurations'],
     'all camera positions, attitudes, scales, offsets, body shapes, rotation senses, image sizes and projections',
     'The unit test uses one fixed geometry; the end-to-end tests never look at pixels, and several attitude and sense errors survived them.',
     [L + 'ViewingGeometry.cpp', L + 'PhotoImage.cpp', L + 'Geometry.cpp', L + 'GLLGeometricCorrection.cpp', S + 'PhotoImageFactory.cpp', S + 'parse.yy'],
     [('ViewingGeometry::latlon2pix', L + 'ViewingGeometry.cpp'), ('PhotoImage::read_data', L + 'PhotoImage.cpp')],
     ['pixels of maps of generated source images with unique pixel values'])

prop('P10', 'Invisible, dark, nibbled and sky photo pixels are never plotted',
     'A surface point is plotted from a photo only if its emission angle is below the emission angle limit (90 degrees by default), it is on the sunlit side when terminator removal is requested, and its photo pixel lies inside the image (after any inversion) minus the nibbled margins and, with sky removal, on the body (the sky test is made at the pixel\'s own sample and line). '
     'Every surface point meeting these conditions whose photo pixel holds valid data is plotted.',
     ['inputs', 'configurations'],
     'all geometries, emission limits, terminator, nibble and sky removal settings',
     'No existing test covers visibility decisions on pixels.',
     [L + 'ViewingGeometry.cpp', L + 'PhotoImage.cpp', L + 'PhotoImageParameters.cpp', S + 'PhotoImageFactory.cpp', S + 'parse.yy'],
     [('ViewingGeometry::is_visible / body_mask', L + 'ViewingGeometry.cpp'), ('nibble bounds', L + 'PhotoImage.cpp')],
     ['blank versus plotted map pixels'])

prop('P11', 'Photo preprocessing preserves or transforms pixel values as requested',
     'Photo pixels reach the map with their physical value (BZERO + BSCALE x stored, any FITS data type, invalid and BLANK pixels never plotted) after subtracting the flat field image and then inverting horizontally, vertically or both as requested. '
     'With interpolation the plotted value is the mean of the linear interpolations along those edges of the two by two pixel square at the sampling point whose end pixels are valid, so that it lies within the range of these pixels and reproduces constant images exactly (points whose square leaves the image are not plotted); without it the value is that of a single pixel, unchanged.',
     ['inputs', 'configurations'],
     'all FITS data types, scalings, blank patterns, inversions, flat fields and interpolation settings of the source images',
     'No existing test feeds more than one fixed compressed image through this path, and none looks at the result.',
     [S + 'PhotoImageFactory.cpp', S + 'FITS_file.cpp', S + 'FITS_image.cpp', S + 'FITS_image_t.cpp', L + 'BilinearInterpolation.cpp', L + 'PhotoImage.cpp'],
     [('PhotoImageFactory::make / flat_field_correct / invert', S + 'PhotoImageFactory.cpp'), ('BilinearInterpolation::interpolate', L + 'BilinearInterpolation.cpp')],
     ['map pixels'])

prop('P12', 'Mosaics combine overlapping photos by the requested averaging',
     'Where several photos of one plane show a surface point, the map holds the value of the first such photo (no averaging), the mean of all their values (unweighted), or the mean weighted by the distance of each photo pixel to the nearest edge of its image or, with sky removal, to the nearest sky pixel along its line and sample (weighted, which is the default). '
     'Where a single photo shows the point its value is used unchanged, photos without valid data at the point have no influence, and a point is blank only if no photo shows it.',
     ['inputs', 'configurations', 'histories'],
     'all numbers and orders of photos, overlap patterns, invalid pixels, sky removal and averaging types',
     'The unit test drives the averaging classes with constant images; order, overlap and weights of real photos are not covered.',
     [L + 'MosaicImage.cpp', L + 'weighted_average.cpp', L + 'unweighted_average.cpp', L + 'first_read.cpp', L + 'compositing_strategy.h', L + 'PhotoImage.cpp', S + 'MosaicImageFactory.cpp', S + 'parse.yy'],
     [('compositing_strategy', L + 'compositing_strategy.h'), ('PhotoImage::data_weight', L + 'PhotoImage.cpp')],
     ['map pixels'])

prop('P13', 'Numeric expressions evaluate like ordinary double arithmetic',
     'Wherever a number is accepted in an input file, an arithmetic expression of numbers, + - * / ^ (right associative), unary minus, parentheses and the supported functions evaluates with the usual precedence to the double precision value of the same expression, and using it is indistinguishable from writing its value. '
     'Exponent forms, leading zeros, whitespace, comments and line layout do not change the value. An expression without a finite value (division by zero, the square root of a negative number, overflow) is rejected.',
     ['inputs', 'programs'],
     'all expression trees over the documented operators and functions, in any numeric slot',
     'The existing input files contain a few literal expressions whose values are never checked.',
     [S + 'calc.cpp', S + 'lexer.ll', S + 'parse.yy'],
     [('expr grammar', S + 'parse.yy'), ('function table', S + 'calc.cpp')],
     ['header cards and pixel values that depend on the expression'])

prop('P14', 'Equivalent notations of the same map give the same pixels',
     'Inputs that describe the same map in different documented notations (radii versus flattening in any order, N/S and C/G latitudes, E/W and reduced longitudes, CW position angles, ranges in km or AU, defaults written out, keyword case, comments and layout) produce the same pixels. '
     'Compressed and uncompressed copies of the same source image are interchangeable.',
     ['inputs', 'configurations'],
     'all generated maps and all combinations of notational variants',
     'Existing tests use one notation each and compare nothing.',
     [S + 'parse.yy', S + 'lexer.ll', L + 'OblateSpheroid.cpp', L + 'Validate.h'],
     [('angle suffix rules', S + 'parse.yy'), ('third radius computation', L + 'OblateSpheroid.cpp')],
     ['map pixels'])

prop('P15', 'Any input file is either mapped or rejected cleanly',
     'For every byte string given as an input or user configuration file the program terminates without a crash, memory error, undefined behaviour or hang. '
     'Input that is malformed or out of range (syntax errors, invalid latitudes, radii, scales, sizes, missing sections or missing source images) gives a nonzero exit status and an error message and never a map of something else.',
     ['inputs', 'programs', 'fault_sequences'],
     'arbitrary mutations of valid inputs, token soups, out-of-range values in every numeric slot, and missing or unreadable files',
     'The repository has a fixed set of bad input files.',
     [S + 'lexer.ll', S + 'parse.yy', S + 'parse_scan.cpp', S + 'marc.cpp', L + 'Validate.h', S + 'calc.cpp'],
     [('parse_file error handling', S + 'parse_scan.cpp'), ('Validate.h', L + 'Validate.h')],
     ['exit status, messages, absence of sanitizer reports, absence of the map file'])

prop('P16', 'Maps and planes in one run are independent of each other',
     'The file produced for a map depends only on that map\'s own entries: mapping several maps in one input file, in several input files on one command line, or in any order gives the same pixels and physical header values as mapping each alone, and planes of one map do not influence each other. '
     'Repeating a run reproduces the files, overwriting any previous content.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of maps with different bodies, projections, types, planes and photo settings',
     'Existing tests run fixed files once each; parser state leaking between maps needs specific sequences.',
     [S + 'parse.yy', S + 'parse_scan.cpp', S + 'marc.cpp', S + 'MapCommand.cpp', L + 'MapFactory_t.cpp'],
     [('parser state reset between maps and planes', S + 'parse.yy')],
     ['FITS files of joint and separate runs'])

prop('P17', 'Grids trace exactly the requested parallels and meridians',
     'When a grid is requested the map file has a second image of the same dimensions in which grid pixels are marked and all others blank, and otherwise it has none. '
     'Every parallel (counted in steps of the requested interval from the south pole) and meridian (counted from the prime meridian, in one direction) that crosses the map is drawn within about one pixel of its position in the map, and no marked pixel is farther than that from such a line.',
     ['inputs', 'configurations'],
     'all projections, intervals, body shapes, rotation senses, windows and map sizes',
     'The end-to-end tests create grids but never look at them.',
     [L + 'SimpleCylindrical.cpp', L + 'Mercator.cpp', L + 'PolarStereographic.cpp', L + 'Orthographic.cpp', S + 'MapCommand.cpp'],
     [('plot_grid', L + '*.cpp'), ('MapCommand::write_grid', S + 'MapCommand.cpp')],
     ['pixels of the grid extension'])

prop('P18', 'Every map file is a complete, valid FITS file describing the map',
     'Every map written is a valid FITS file whose dimensions, number of planes, data type (the requested one or, by default, the one chosen for the source data), object, author, origin, comments, projection notes and blank value match the input (the default type is claimed for maps of single photos), with correct data and header checksums; texts and the blank value that the input leaves out are those of the first photo that has them, and a grid is an extension named GRID that declares its blank value 0 and its only value 255. '
     'All planes are present in order and complete, and the program exits with status zero only when the file has been written.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all map sizes (incl. one pixel), plane counts, data types, header texts and output paths (existing, missing directory)',
     'Existing tests check only that the program exits successfully.',
     [S + 'MapCommand.cpp', S + 'MapCommand_t.cpp', S + 'FITS_file.cpp', S + 'FITS_image.cpp', S + 'FITS_image_t.cpp', S + 'map_parameters.cpp'],
     [('MapCommand::execute', S + 'MapCommand.cpp'), ('output_image::write', S + 'FITS_image_t.cpp')],
     ['the FITS file itself, read by an independent reader'])

prop('P19', 'User configuration supplies defaults and nothing else',
     'Grid intervals, data range and nibble values in the user configuration file act exactly as if they had been written in every map that leaves them out, and have no effect where a map gives its own. The file is $XDG_CONFIG_HOME/marc, or ~/.config/marc if that variable is not set, and no other. '
     'Without a configuration file, or where it leaves out an entry, the built-in defaults apply (grid lines every ten degrees, no nibbling, no limits); a malformed configuration is reported.',
     ['configurations', 'inputs'],
     'all subsets and values of configuration entries combined with all maps',
     'The existing configuration test checks the built-in constants only.',
     [S + 'marc.cpp', S + 'parse.yy', S + 'parse_scan.cpp', L + 'DefaultConfiguration.h'],
     [('user defaults section of the grammar', S + 'parse.yy')],
     ['map and grid pixels with and without configuration'])

prop('P20', 'Any source image file is either read correctly or rejected cleanly',
     'For every file named as a source or flat field image (any dimensionality, truncated, corrupted, wrong size, not FITS at all) the program terminates without a crash, memory error or undefined behaviour. '
     'It reports failure with a nonzero status when the image cannot be used, truncated files included, warns of checksums that do not match, and otherwise plots only values present in the image.',
     ['inputs', 'fault_sequences'],
     'arbitrary corruptions of headers and data units, truncations, unusual NAXIS/BITPIX/BSCALE combinations and flat fields of different size',
     'Only one valid image is ever read by the existing tests.',
     [S + 'FITS_file.cpp', S + 'FITS_image.cpp', S + 'FITS_image_t.cpp', S + 'PhotoImageFactory.cpp'],
     [('FITS::data', S + 'FITS_image.cpp'), ('PhotoImageFactory::make', S + 'PhotoImageFactory.cpp')],
     ['exit status, sanitizer reports, map pixels'])

prop('P21', 'Camera round trips: projecting a point and tracing it back agree',
     'For every camera geometry, projecting a visible surface point into the image and tracing the image position back to the surface returns the same latitude and longitude, and every image position that misses the body is reported as such. '
     'The body mask used for sky removal marks exactly the pixels whose position meets the body.',
     ['inputs', 'configurations'],
     'all camera geometries, body shapes, rotation senses, visible points and image positions',
     'The unit test checks one geometry on one body.',
     [L + 'ViewingGeometry.cpp', L + 'OblateSpheroid.cpp', L + 'Geometry.cpp', L + 'GLLGeometricCorrection.cpp'],
     [('ViewingGeometry::latlon2pix / pix2latlon / body_mask', L + 'ViewingGeometry.cpp')],
     ['library interface'])

prop('P22', 'Numerical building blocks obey their mathematical laws',
     'Vector, matrix and rotation operations satisfy the algebra of real space (orthonormal rotations, distributivity, transposition, dot product and magnitude identities), the lens corrections between image and object space are inverse to each other, root finding returns an argument whose function value is the requested ordinate for every monotonic bracketed function, and quadratic root finding returns real roots exactly when they exist. '
     'Running extrema equal the minimum and maximum of everything they were given in any order and grouping, floating point comparison helpers are symmetric and scale with the requested precision, and the scale and offset chosen for integer data is the largest power of ten for which all data fits. The scale distortion of Mercator maps is the ratio of the equator to the parallel, and that of polar stereographic maps is one at the pole, grows away from it and follows the stereographic law on spheres.',
     ['inputs', 'histories'],
     'all finite operands of moderate magnitude, all update sequences',
     'Unit tests use a few hand-picked operands.',
     [L + 'Vector.h', L + 'Matrix.h', L + 'Geometry.cpp', L + 'root_find.cpp', L + 'Mathematics.h', L + 'extrema.h', L + 'GLLGeometricCorrection.cpp', L + 'details'],
     [('operators', L + 'Vector.h'), ('root_find', L + 'root_find.cpp'), ('extrema', L + 'extrema.h')],
     ['library interface'])

prop('P23', 'Progress reports are complete, ordered and monotonic',
     'On standard output every map is named in the order of the input, every plane of it is announced exactly once with its number and the total, followed by exactly one progress bar that advances by a mark per two percent (a number every twenty) and ends with 100%, and the map is reported as created after its last plane and only then. '
     'Observers of the plotting progress are told the counts 1, 2, 3, ... of the points plotted, then the completion of the plane, and start anew with every plane, independently of each other.',
     ['inputs', 'histories'],
     'all maps, sizes (from one pixel on), numbers of planes and maps, and all histories of plot and completion notifications with any number of observers',
     'The unit tests notify one observer once; the end-to-end tests ignore the output.',
     [L + 'Notifier.h', S + 'ProgressConsole.cpp', L + 'MapFactory_t.cpp', S + 'MapCommand.cpp', S + 'MapCommand_t.cpp'],
     [('notifier::notify_plotted / notify_done', L + 'Notifier.h'), ('console::notify', S + 'ProgressConsole.cpp')],
     ['standard output', 'library interface'])

prop('P24', 'A run makes nothing from malformed input and reports every failure',
     'When any input file or the user configuration is missing, unreadable or malformed anywhere, the run ends with a nonzero status and a message, and no map file of any of the input files has been created, changed or removed. '
     'When a map cannot be made (its file cannot be created or its images cannot be used) the status is nonzero and maps made before it are complete; informational options succeed without making maps, and unknown options or an absence of input files are errors.',
     ['inputs', 'histories', 'fault_sequences'],
     'all combinations of maps in input files, kinds and places of damage, map files that already exist, and argument lists',
     'The existing tests run the program on single well formed input files only.',
     [S + 'marc.cpp', S + 'command_line.cpp', S + 'parse.yy', S + 'lexer.ll', S + 'MapCommand.cpp'],
     [('main', S + 'marc.cpp'), ('command_line::parse', S + 'command_line.cpp')],
     ['exit status, messages, and the files of the working directory'])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
