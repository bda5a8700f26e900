C = 'magpie/coords/'
G = 'magpie/grids/'
X = 'magpie/pixel/'
R = 'magpie/randoms/'
D = 'magpie/densegrid/'
M = 'magpie/montecarlo/'

prop('P05', 'Coordinate conversions and their inverses are the textbook transforms',
     'Cartesian, polar and spherical coordinates convert into one another exactly as the textbook formulas say, about any '
     'centre, and going there and back returns the point that went in. The same holds for latitude against colatitude, and '
     'for the orthographic disc, whose points are mapped to the front of the sphere and whose outside is filled with the fill value.',
     ['inputs'], 'every point, centre, radius and angle, including the centre itself, the axes and all quadrants',
     'tests compare a handful of points; a sign, quadrant or centre error shows only at other points',
     [C + 'conversions.py', C + 'usphere_util.py'],
     [('cart2polar / polar2cart', C + 'conversions.py'), ('cart2sphere / sphere2cart', C + 'conversions.py'),
      ('ortho2cart', C + 'conversions.py'), ('sphere2lonlat / lonlat2sphere', C + 'usphere_util.py')], AI,
     NOTE + 'All inputs symbolic; the branch conditions of the code split the cases.',
     observe=['return values of magpie.coords conversions'])

prop('P06', 'Every angle handed back lies in its declared range',
     'Azimuths are always returned in [0, 2 pi) or [0, 2 pi] and colatitudes in [0, pi], whatever point, rotation or shift went in. '
     'This includes points on the axes, at the poles and at the centre, and shifts of any sign within one or more turns.',
     ['inputs'], 'every point, rotation centre, spin and shift', 'a test samples a few angles; the wrap-around fails on others',
     [C + 'conversions.py', C + 'usphere.py', C + 'polar.py'],
     [('cart2polar, cart2sphere', C + 'conversions.py'), ('usphere_rotate, usphere_phi_shift, usphere_shift, usphere_spin', C + 'usphere.py'),
      ('rotate_polar', C + 'polar.py')], AI, NOTE + 'Range obligations on symbolic angles, decided by intervals and normal forms.')

prop('P07', 'Array coordinate operations act on each element on its own',
     'Calling a coordinate operation with an array gives, at every position, exactly what calling it with that single element gives. '
     'The shape is kept, and no element influences another.',
     ['inputs'], 'every array content; one- and two-dimensional arrays mixing the special points (centre, poles, axis) with general ones',
     'tests use arrays in which every element takes the same branch, so a masked update that leaks between elements goes unseen',
     [C + 'conversions.py', C + 'usphere.py', C + 'polar.py', C + 'healpix.py'],
     [('masked assignments per branch', C + 'conversions.py'), ('healpix_xy2ang / healpix_ang2xy', C + 'healpix.py'),
      ('usphere_* and rotate_polar', C + 'usphere.py')], AI, NOTE + 'Scalar call and array call are both interpreted and their value graphs compared.')

prop('P08', 'HEALPix ring, dash, star and plane coordinates are exact and invertible',
     'Every pixel number maps to its ring and position in the ring, to the derived dash and star coordinates and to its centre in the HEALPix plane '
     'as the HEALPix scheme defines them, and each of these maps is undone exactly by its inverse. Plane and sky '
     'coordinates agree with each other in the equatorial belt, in both caps and at the poles, in both directions.',
     ['inputs', 'configurations'], 'every pixel of nside 1..4 (more when thorough), belt and cap formulas for symbolic nside, every sky position',
     'tests look at a few pixels of one nside; ring boundaries and caps are where index arithmetic breaks',
     [X + 'healpix_index.py', C + 'healpix.py'],
     [('healpix_pix2ij / healpix_ij2pix', X + 'healpix_index.py'), ('healpix_i2id, healpix_j2jd', X + 'healpix_index.py'),
      ('healpix_ijd2ijs / healpix_ijs2ijd', X + 'healpix_index.py'), ('healpix_ij2xy, healpix_pix2xy', X + 'healpix_index.py'),
      ('healpix_xy2ang / healpix_ang2xy', C + 'healpix.py')], AI,
     NOTE + 'nside is enumerated (1..4, more when thorough); belt formulas are also proved for a symbolic nside.')

prop('P09', 'Outlines lie exactly on the boundary of the shape they describe',
     'The outlines of squares, boxes, arcs, discs and HEALPix pixels consist only of points on the true boundary, visit every side and corner '
     'in order, close where they should and have the requested number of points. The top and bottom halves of a pixel outline are the matching halves, and reversing reverses.',
     ['inputs', 'configurations'], 'every size, position, centre, angle range; every pixel of small nside and several step counts',
     'tests compare one shape with a stored array', [X + 'basic_shapes.py', X + 'healpix_boundary.py'],
     [('get_square, get_arc, get_disc, get_box', X + 'basic_shapes.py'), ('healpix_boundary*', X + 'healpix_boundary.py')], AI,
     NOTE + 'Step counts and nside are enumerated, sizes and angles symbolic.')

prop('P10', 'Grids tile their box: edges, centres and meshes agree',
     'The edges of a grid start at the minimum, end at minimum plus length and are equally spaced; centres lie midway between neighbouring edges, and edges and centres can be recovered from one another. '
     'Two- and three-dimensional meshes list every combination in the documented axis order, with per-axis lengths, numbers and minima. '
     'Polar grids cover the requested ranges, and equal-area polar grids have cells of equal area and the stated number of them.',
     ['inputs', 'configurations'], 'every length and minimum; grid sizes 1..5 per axis, unequal per axis',
     'tests use one cubic size, so swapped axes and off-by-one edges pass', [G + 'cartesian.py', G + 'polar.py'],
     [('get_xedges, xedges2mid, xmid2edges', G + 'cartesian.py'), ('grid1d, grid2d, grid3d', G + 'cartesian.py'),
      ('polargrid, polarEA_grid, polarEA_area, polarEA_npix', G + 'polar.py')], AI,
     NOTE + 'Known finding: edges recovered from centres (an existing test requires the wrong values).')

prop('P11', 'One-dimensional remap weights are the exact overlap fractions',
     'When a grid is moved to another grid, each new cell receives the average of the old cells weighted by the exact length each of them shares with it, '
     'whatever the offset, the size ratio or the alignment, and cells outside the old box receive nothing. Constant fields stay constant over covered cells.',
     ['inputs', 'configurations'], 'every cell position and size relative to the grid, every content; grid sizes up to 5',
     'the remap package has no tests at all', ['magpie/remap/grid2grid.py', 'magpie/src/remap_utils.f90', 'magpie/src/remap_1d_grid2grid.f90'],
     [('overlap weights of one new cell', 'magpie/src/remap_utils.f90'), ('one-dimensional remap', 'magpie/src/remap_1d_grid2grid.f90'),
      ('grid2grid1D', 'magpie/remap/grid2grid.py')], AI, NOTE + 'The Fortran kernels are parsed and lowered to the same value graph as the Python.')

prop('P12', 'Two- and three-dimensional remaps use each axis with its own parameters',
     'A two- or three-dimensional remap gives every new cell the product of the per-axis overlap fractions, taken from the lengths, origins, numbers of cells and contents of that axis. '
     'Sizes and origins given as one number mean that number for every axis, and the defaults are the input box.',
     ['inputs', 'configurations'], 'every content, offset and size; unequal numbers of cells and divisions per axis',
     'the remap package has no tests; square, aligned examples hide swapped axes',
     ['magpie/remap/grid2grid.py', 'magpie/src/remap_2d_grid2grid.f90', 'magpie/src/remap_3d_grid2grid.f90', 'magpie/src/remap_utils.f90'],
     [('grid2grid2D, grid2grid3D', 'magpie/remap/grid2grid.py'), ('two- and three-dimensional kernels', 'magpie/src/remap_3d_grid2grid.f90')],
     AI, NOTE + 'The Fortran kernels are parsed and lowered to the same value graph as the Python.')

prop('P13', 'One-dimensional rebinning shares each bin by exact coverage',
     'Each new bin holds the average of the old bins weighted by the fraction of it that each of them covers, and bins that leave the old range, lie outside it, or coincide with old edges follow the same rule. '
     'Weights and errors are combined by the same coverages, and equal weights change nothing.',
     ['inputs'], 'every content, weight and error, and every position of the new bin relative to the old edges, unequal widths included',
     'the rebinning module has no tests', ['magpie/one_d/one_d.py'],
     [('rebin_1d', 'magpie/one_d/one_d.py'), ('rebin_1d_single_bin_weights', 'magpie/one_d/one_d.py')], AI,
     NOTE + 'Up to 4 old bins; every ordering of new edges among old ones is a driver.')

prop('P14', 'Box to ring: each polar cell averages the box cells its sub-cells sample',
     'Remapping a box onto a polar grid gives each polar cell the average of the box values sampled at its sub-cells, samples outside the box counting as zero, '
     'for any centre, sector, shift, cell shape and refinement. Given weights, the result is the weighted mean of the same samples.',
     ['inputs', 'configurations'], 'every content and weight; rectangular cells, off-centre rings, sectors, shifts and unequal refinements',
     'the package has no tests', [D + 'box2ring.py', 'magpie/polar/polar2radial.py'],
     [('setup_box, setup_polar', D + 'box2ring.py'), ('_remap, remap', D + 'box2ring.py'), ('areas', 'magpie/polar/polar2radial.py')], AI,
     NOTE + 'Box and ring geometry in units of a symbolic cell size; box contents symbolic.')

prop('P15', 'Cube to shell: each shell cell averages the cube cells it samples',
     'Remapping a cube onto spherical shells gives each cell of each shell the average of the cube values sampled inside it, with samples outside the cube ignored, '
     'for any centre, cell shape, resolution and refinement, and periodic axes wrap.',
     ['inputs', 'configurations'], 'every content; rectangular cells and cubes, off-centre shells, finer pixels, periodic or open axes',
     'the package has no tests', [D + 'cube2shell.py'],
     [('setup_cube, setup_polar', D + 'cube2shell.py'), ('remap', D + 'cube2shell.py')], AI,
     NOTE + 'HEALPix geometry is evaluated by the engine for nside 1 and 2.')

prop('P16', 'Sphere map to cap, tangent box or orthographic view samples the right pixels',
     'Remapping a sphere map gives each cap cell, box cell or orthographic cell the average of the map pixels found at its sub-cells after the stated rotation, for any centre, tilt, spin, shift, rectangular shape and refinement. '
     'Given weights, the result is the weighted mean of the same samples, and positions beside the visible sphere have no value.',
     ['inputs', 'configurations'], 'every map and weight; centres at poles, equator and between, unequal sides, divisions and refinements',
     'the package has no tests', [D + 'heal2ring.py', D + 'heal2polar.py', D + 'heal2ortho.py'],
     [('Heal2Ring', D + 'heal2ring.py'), ('Heal2Polar', D + 'heal2polar.py'), ('Heal2Ortho', D + 'heal2ortho.py')], AI,
     NOTE + 'HEALPix geometry is evaluated by the engine for small nside; the map is symbolic.')

prop('P17', 'Monte Carlo remaps weight each source cell by its share of the points',
     'In a Monte Carlo remap each target cell gets the average of the source cells in which its random points fall, each counted by its share of the points, points without a source counting for nothing. '
     'The random points fill exactly the target cell, linear and logarithmic cell edges are as requested, and given weights the result is the weighted mean by the same shares.',
     ['inputs', 'configurations'], 'every draw of the random generator for the cells analysed, every content and weight; all four remaps',
     'the package has no tests, and any test samples one stream of draws', [M + 'box2ring.py', M + 'heal2ring.py', M + 'heal2polar.py', M + 'cube2shell.py'],
     [('get_weights', M + 'box2ring.py'), ('get_weights', M + 'heal2ring.py'), ('get_weights', M + 'heal2polar.py'), ('get_weights', M + 'cube2shell.py'),
      ('remap of each class', M + 'cube2shell.py')], AI,
     NOTE + 'Draws are symbols in their interval; which source cell a draw falls in is decided where the drawn cell lies within one source cell, undecided otherwise.')

prop('P19', 'A radial profile is the weighted mean over angle, with its error',
     'Collapsing a polar map to a radial profile gives, at each radius, the mean over angle weighted by the given weights. '
     'Its error adds the cell errors in quadrature by the same weights, scaled by pixels per cell, and cells that carry no weight or lie outside the box contribute nothing.',
     ['inputs'], 'every map, area, weight and error', 'the package has no tests', ['magpie/polar/polar2radial.py', D + 'box2ring.py', M + 'box2ring.py', D + 'heal2ring.py', M + 'heal2ring.py'],
     [('polar2radial', 'magpie/polar/polar2radial.py'), ('polar2radial of the ring remaps', D + 'box2ring.py')], AI, NOTE)

prop('P20', 'Cell areas and cumulative sums are exact',
     'Areas on the sphere and in polar coordinates are the exact integrals over the cell, box pixel areas are the product of the sides, and impossible ranges on the sphere are refused. '
     'The cumulative profile at each outer edge is the integral of the profile up to it, and its error adds in quadrature.',
     ['inputs'], 'every range of angles and radii, every profile and error', 'the packages have no tests',
     [C + 'usphere_util.py', 'magpie/polar/polar2radial.py', 'magpie/polar/radial.py'],
     [('usphere_area', C + 'usphere_util.py'), ('get_polar_area2d, get_pixarea', 'magpie/polar/polar2radial.py'), ('cumulative_radial', 'magpie/polar/radial.py')], AI, NOTE)

prop('P21', 'Random points fill exactly the requested region, uniformly in its measure',
     'Every random point lies inside the requested interval, box, disc sector, shell, patch of the sphere or HEALPix pixel, and the requested number comes back with one entry per coordinate. '
     'Each coordinate is the inverse cumulative distribution of the uniform measure of the region applied to a fresh uniform draw, so points are uniform in length, area or volume.',
     ['inputs', 'configurations'], 'every draw and every pair of limits of each coordinate',
     'the package has no tests, and a sample cannot prove that no draw leaves the region',
     [R + 'cart.py', R + 'polar.py', R + 'sphere.py', R + 'usphere.py'],
     [('randoms_1d, randoms_2d, randoms_3d', R + 'cart.py'), ('randoms_polar', R + 'polar.py'), ('randoms_sphere_r, randoms_sphere', R + 'sphere.py'),
      ('randoms_usphere, randoms_healpix_pixel', R + 'usphere.py')], AI, NOTE + 'Draws are symbols in [0,1).')

prop('P22', 'Subsampling draws only from the sample, as often as the weights say',
     'Shuffling returns the same elements in a random order, drawing returns elements of the sample only, and with probabilities an element is kept exactly when its own draw does not exceed its probability, or for a given size those with the smallest draws for their probability. '
     'A stochastic integer weight is the integer part of the weight or one more, the latter with probability its fractional part, and a binary weight is one with probability the weight and zero otherwise.',
     ['inputs'], 'every sample, probability, weight and draw', 'the package has no tests', [R + 'subsample.py'],
     [('shuffle, random_draw, random_prob_draw', R + 'subsample.py'), ('stochastic_integer_weights, stochastic_binary_weights', R + 'subsample.py')], AI, NOTE)

prop('P24', 'Rotations of the sphere and of polar maps are the stated rotations',
     'Rotating, shifting and spinning points on the sphere are rigid rotations that take the start to the end, turn about the given centre by the given angle, and are undone by the opposite. '
     'Turning polar angles or a polar map moves every value by the shift around the circle, conserving the total, and whole-cell turns are exact.',
     ['inputs'], 'every point, start, end, centre and angle (exact angles where the general form is undecided), every map',
     'tests take a few points; the quadrant and handedness of a rotation fail elsewhere', [C + 'usphere.py', C + 'polar.py'],
     [('usphere_rotate, usphere_phi_shift, usphere_shift, usphere_spin', C + 'usphere.py'), ('rotate_polar, rotate_polar_grid', C + 'polar.py')], AI, NOTE)

prop('P25', 'A remap object gives what its last set-up asks for',
     'Setting a remap object up again, in whole or in part, gives the same results as a fresh object with the last settings, including other resolutions, and cleaning it returns it to the unset state. '
     'Remapping does not change the object, so the same map remapped again gives the same result, and objects are independent of each other.',
     ['histories', 'inputs'], 'every content of the maps over sequences of set-up, remap, error and clean calls of each class',
     'state left over from an earlier configuration needs a sequence of calls, and the classes have no tests',
     [D + 'box2ring.py', D + 'heal2ring.py', D + 'heal2polar.py', D + 'heal2ortho.py', D + 'cube2shell.py', M + 'box2ring.py', M + 'heal2ring.py', M + 'heal2polar.py', M + 'cube2shell.py'],
     [('setup_*, remap, clean', D + 'box2ring.py'), ('setup_*, remap, clean', M + 'box2ring.py')], AI, NOTE + 'Sequences of up to three configurations.')

prop('P26', 'Impossible requests are refused before anything is changed',
     'Requests the documentation rules out are refused with an error: non-positive sizes and counts, reversed or out-of-range limits, pixels outside the map, '
     'maps whose shape does not match the set-up, steps taken before the set-up they need. A refused request leaves the object and the random stream as they were, and every legal request is accepted.',
     ['inputs', 'histories'], 'every value of the offending argument next to every legal value of the others; counts by concrete values',
     'tests never call anything with an illegal argument', [C + 'healpix.py', G + 'cartesian.py', R + 'usphere.py', 'magpie/remap/rebin.py', D + 'cube2shell.py', M + 'cube2shell.py'],
     [('assert statements of every module', G + 'cartesian.py'), ('setup_* and remap of each class', D + 'cube2shell.py'), ('setup_* and remap of each class', M + 'cube2shell.py')], AI,
     NOTE + 'A refusal is an explicit raise or a failing assert on every path of the illegal request.')

prop('P29', 'Sampling from a density follows that density',
     'The cumulative distribution built from a tabulated density is its normalised running integral, starts at zero, ends at one and never decreases, and the normalised density integrates to one. '
     'Random values drawn from it are the inverse of that cumulative distribution at uniform draws, and stay in the range of the table.',
     ['inputs'], 'every positive density, table spacing and draw', 'the module has no tests', [R + 'pdf.py'],
     [('pdf2cdf', R + 'pdf.py'), ('randoms_cdf, randoms_pdf', R + 'pdf.py')], AI, NOTE + 'The interpolating spline itself is an opaque monotone function through its nodes.')

prop('P30', 'Perspective and orthographic views put points where they are seen',
     'The perspective view puts a point at its sideways and upward offset scaled by the display distance over its depth, for any camera, direction and spin, reports its distance, and the reverse view gives the point back. '
     'The orthographic view puts a direction at its offset east and north of the centre of the view and gives no position to the far side.',
     ['inputs', 'configurations'], 'every camera, display and visible point for sets of viewing directions and spins',
     'the module has no tests, and a mirrored or mis-spun view only shows off the axes',
     [D + 'pointofview.py', D + 'heal2ortho.py'],
     [('PointOfView', D + 'pointofview.py'), ('Heal2Ortho.transform', D + 'heal2ortho.py')], AI, NOTE)

prop('P01', 'Arguments are left as they were and repeated calls agree',
     'No function of the package, and no configured remapping object, changes an array, list or map it is given, and what it hands back shares no memory with what it was given. '
     'Calling the same function again with the same arguments, or remapping the same map again, gives the same result whatever was called in between.',
     ['inputs', 'histories'], 'every content of the arguments; pairs of calls on the same arguments and on the same object',
     'tests look at what comes back and not at what happened to the argument or at a second call',
     [C, G, X, R, 'magpie/remap.py', 'magpie/polar.py', 'magpie/one_d.py', D, M],
     [('argument writes, result aliasing and object state of every public call', 'magpie/')], AI + ' with an alias-tracking heap',
     NOTE + 'A write through any alias of an argument is seen in the heap of the interpreter; results are compared with the argument storage they are views of.')

prop('P18', 'Remaps are weighted means of the map',
     'Every remap is linear in the map, keeps a constant map constant where the target lies inside the source, and makes no negative value from a map without any. '
     'With weights it is unchanged by a common factor of the weights, and equal weights give the unweighted result.',
     ['inputs', 'configurations'], 'every map and every positive weighting on the grids, rings, caps, boxes, discs and shells of the drivers',
     'tests only cover a few maps, so an offset, a lost normalisation or a weight used twice shows only for other maps and weights',
     ['magpie/remap.py', 'magpie/polar.py', D, M],
     [('grid2grid1D/2D/3D, bin2grid', 'magpie/remap.py'), ('remap methods', D), ('remap methods', M), ('polar2radial, rotate_polar_grid', 'magpie/polar.py')],
     AI, NOTE + 'Linearity and scaling are equalities between the value graphs of several calls on symbolic maps.')

prop('P23', 'Randomness comes only from the global numpy random stream',
     'Only the random catalogues and the Monte Carlo weights draw random numbers, and they draw them from the global numpy stream only, so seeding it once makes a whole run repeatable. '
     'No function seeds, saves or replaces that stream, and everything else draws nothing, so it never shifts the numbers of a later draw.',
     ['histories', 'inputs'], 'every public function and remapping object, in every order of calls',
     'a test that seeds and compares once does not notice an extra draw, a hidden reseeding or a second source of randomness',
     [R, M, C, G, X, D],
     [('effects rng, rng-state, private-rng, foreign-rng of every public call', 'magpie/')], AI + ' with an effect system; ' + LINT,
     NOTE + 'Effects are collected at every call site reached, including calls under conditions; a lint covers all other source.')

prop('P27', 'Calls leave no trace outside their results',
     'With verbose off no function prints anything, and in no case does one write a file, start a process, or change global settings such as the error handling or print options of numpy or a variable of a module. '
     'With verbose on only the progress is printed and the results are the same.',
     ['inputs', 'histories'], 'every public function and remapping object',
     'tests do not look at the output streams, the file system or process-wide settings',
     [C, G, X, R, D, M, 'magpie/utils/'],
     [('effects io, file, global, os, external of every public call', 'magpie/')], AI + ' with an effect system; ' + LINT,
     NOTE + 'Effects are collected at every call site reached, including calls under conditions; a lint covers all other source.')

prop('P02', 'Every reference, call and import in the package resolves',
     'No function or method of the package, whichever branch or option is taken and including the plotting ones, refers to a name, module member or object attribute that does not exist, reads a variable that no assignment can have set, or calls something with arguments it does not take. '
     'Every import resolves, so that the package and its sub-packages load.',
     ['inputs', 'configurations'], 'every reference, attribute and call site in the source of the package', 'the tests run three of the sub-packages and few of their options; such errors show only when a branch runs',
     [C, G, X, R, D, M, 'magpie/plots/', 'magpie/utils/'],
     [('names, module members, object attributes, call signatures', 'magpie/')], LINT + ' (scopes, name spaces across modules, flow of possible bindings, signatures)',
     'Library names and signatures come from a table taken from the installed numpy, healpy, scipy and matplotlib. Attributes of values of unknown type are not examined.')

prop('P31', 'Plot helpers draw the view on the axis they are given',
     'The plot helpers draw on the axis they are given exactly the outline, image, limits, grid lines and labels of the view: the box and the circle asked for, the limits and orientation of the view, and the edge of the sphere. '
     'Every point of a grid line lies on its meridian or parallel seen from the centre of the view, and points on the far side are not drawn.',
     ['inputs', 'configurations'], 'every size and position of box and circle; sets of view centres, sizes, spacings and inside/outside orientation',
     'the plotting code has no tests, and a mirrored axis or shifted line is only seen by eye',
     ['magpie/plots/ortho.py', 'magpie/plots/shapes.py'],
     [('PlotOrtho', 'magpie/plots/ortho.py'), ('plot_box, plot_circle', 'magpie/plots/shapes.py')], AI,
     NOTE + 'The axis is a recorder interpreted with the code: the obligations are about the values passed to it.')

prop('P03', 'Arguments work by position, by name and by default',
     'Every function and set-up step takes its arguments in the documented order and under the documented names, and a call by position gives the same as the call by name. '
     'An argument left out has its documented default, whichever others are given, and where None is allowed it means that default too.',
     ['inputs', 'configurations'], 'every public function, set-up step and remap; each option left out, given alone, and given with all before it',
     'tests call each function one way; a swapped pair or changed default only shows in another call',
     [C, G, X, R, 'magpie/remap/', 'magpie/polar/', 'magpie/one_d/', D, M],
     [('signatures and defaults of all public calls', 'magpie/')], AI, NOTE + 'Results of the calls are compared as value graphs; set-up steps are compared by what the object then remaps.')

prop('P04', 'Whole numbers, lists and sizes of one are treated like any other',
     'Whole-number arguments, as numbers or integer arrays, give the results of the same values as floating numbers, with nothing truncated, and positions and centres may be lists, tuples, arrays or views. '
     'Grids of one cell, profiles of one bin, maps of one cell and single random points follow the same rules as larger ones.',
     ['inputs'], 'every integer content of arrays and arguments within the ranges of the drivers',
     'tests use floating arrays; a buffer of integer kind truncates only for integer input',
     [C, G, X, R, 'magpie/remap/', 'magpie/polar/', 'magpie/one_d/', D, M],
     [('array kinds of buffers and arguments', 'magpie/')], AI + ' with array kinds', NOTE + 'Stores of floating values into integer arrays truncate in the abstract domain as in numpy.')

prop('P28', 'Dense and Monte Carlo versions of a remap agree',
     'The dense and the Monte Carlo version of a remap object build the same grids from the same set-up, accept and refuse the same requests, and turn polar maps and collapse them to profiles alike. '
     'Where a target cell lies within one source cell they give the same map.',
     ['inputs', 'configurations'], 'every box, ring, cap, cube and shell size and position within the drivers, every map and weight', 'the classes have no tests and one version is edited without the other',
     [D, M], [('Box2Ring, Heal2Ring, Heal2Polar, Cube2Shell', D), ('Box2Ring, Heal2Ring, Heal2Polar, Cube2Shell', M)], AI, NOTE)

prop('P32', 'Neighbours of a HEALPix pixel are the pixels that touch it',
     'The neighbours of a pixel are the pixels that touch it along an edge or at a corner, each listed once, with first and second index of a neighbour at the same place in the two lists. '
     'This includes pixels at the corners and edges of the base pixels, in the polar caps and at the wrap from 2 pi to 0.',
     ['inputs', 'configurations'], 'every pixel of nside 1 to 4 (5 and 8 when thorough)', 'the tests only check that the call returns',
     [X + 'healpix_index.py'], [('healpix_ijs_neighbours', X + 'healpix_index.py')], AI, NOTE + 'The reference is the HEALPix face and neighbour tables, folded by the engine.')

na('P33', 'Monte Carlo remaps converge to area fractions as points are added',
   'The error of a Monte Carlo remap falls with the square root of the number of points and the mean over seeds is the exact area average.',
   ['histories'], 'every seed and number of points', 'a test checks one seed with a loose tolerance', [M], [('get_weights', M)],
   'This is a limit of a distribution over runs; the structural parts (points fill exactly the target cell, uniform measure, counts divided by the total) are claimed by P17 and P21.')

na('P34', 'Results are accurate to floating-point rounding',
   'Results differ from their exact values by a few units in the last place only, including points that lie on a cell boundary up to rounding.',
   ['inputs'], 'every floating-point input', 'tests use tolerances', [C, G, X, D, M], [('all arithmetic', 'magpie/')],
   'The analysis is over real arithmetic; a bound on accumulated rounding through numpy, healpy and the compiled kernels is not in reach of it, and cells met exactly at an edge depend on rounding.')

na('P35', 'The interpolated inverse of a tabulated distribution is accurate',
   'The cubic interpolation used when sampling from a tabulated density stays monotone and close to the true inverse cumulative distribution between the nodes.',
   ['inputs'], 'every tabulated density', 'tests cannot sample all tables', [R + 'pdf.py'], [('randoms_cdf', R + 'pdf.py')],
   'The spline is library code with an accuracy that depends on the table; its use (which arrays, which order, which draws) is claimed by P29.')
