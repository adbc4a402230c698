prop('C01', 'Ensemble statistics follow their definitions over the valid values',
     'A statistic of a list of values equals its mathematical definition over the non-missing values only: sum, mean, count, population variance and standard deviation, minimum, median and maximum. It is missing when there is no valid value (the count is then 0), a random choice always returns one of the valid values, and an unknown statistic is rejected.',
     'all lists of any length with any pattern of missing and infinite values, all statistics',
     'The tests compare a few short lists; missing values in every position, all-missing lists and shifted-variance arithmetic for arbitrary data are not reachable by sampling.',
     ['src/api/util.cpp'], [('statistic', 'src/api/util.cpp: calc_statistic'), ('validity', 'src/api/util.cpp: is_valid')])
prop('C02', 'Quantiles are exact order statistics with linear interpolation',
     'The quantile of a list at level q is the linearly interpolated order statistic of its non-missing values: the minimum at 0, the maximum at 1, and between the two plotting positions around q otherwise; it is missing when there are no valid values or q is missing. A level outside [0, 1] is rejected, and the array versions compute each row or cell independently.',
     'all lists, levels and arrays of any shape, with any pattern of missing values',
     'Tests sample a handful of lists and levels; ties, missing values and levels on plotting positions cannot be exhausted.',
     ['src/api/util.cpp'], [('quantile', 'src/api/util.cpp: calc_quantile')])
prop('C06', 'Interpolation on a curve is exact piecewise-linear with flat ends',
     'Looking up a value in an increasing list finds the neighbouring knots (the largest element not above it, the smallest not below it). Interpolating on a curve gives the straight-line value between the two neighbouring knots, the end value outside the curve, the outer value or the mean on repeated knots, and missing for a missing value or an empty curve; curves whose coordinates differ in number are rejected.',
     'all increasing coordinate lists (with ties), all curves and all values, missing and infinite included',
     'Tests look up a dozen values on one or two curves; ties, end points and missing values in every combination cannot be sampled.',
     ['src/api/util.cpp'], [('lookup', 'src/api/util.cpp: get_lower_index, get_upper_index'), ('interpolation', 'src/api/util.cpp: interpolate')])
prop('C08', 'Nearest-neighbour interpolation takes the value at a nearest input point',
     'Every output value equals the input value at a nearest point of the input grid or point list (any of them on ties), for grids and points on either side and for each time separately; with no input points the output is missing. The output has the shape of the output grid or point list, also when that is empty, and values whose shape does not match the input are rejected.',
     'all input and output grids and point lists of the same coordinate type, empty ones included, and all value arrays',
     'Tests interpolate between one or two small grids; the nearest point for every geometry, and empty inputs and outputs, cannot be sampled.',
     ['src/api/nearest.cpp', 'src/api/grid.cpp', 'src/api/points.cpp', 'src/api/kdtree.cpp'], [('interpolation', 'src/api/nearest.cpp'), ('search', 'src/api/kdtree.cpp: get_nearest_neighbour')])
prop('C11', 'Spatial searches return exactly the right points',
     'Geographic or Cartesian coordinates become 3D positions by the documented formulas and invalid coordinates (missing, or a latitude outside [-90, 90]) are rejected. A radius search returns each stored point whose straight-line distance is at most the radius exactly once, and no other, with its distance, excluding or including an exact match as asked; the count agrees. A search for n neighbours returns the n closest (all, when there are fewer) and a nearest-neighbour search a closest one, or -1 when there is none.',
     'all sets of points, query positions, radii and numbers of neighbours, in both coordinate systems, for trees, point lists and grids',
     'Tests query a handful of points; completeness (no point forgotten) and ties for every geometry cannot be sampled.',
     ['src/api/kdtree.cpp', 'src/api/util.cpp', 'src/api/points.cpp', 'src/api/grid.cpp'], [('searches', 'src/api/kdtree.cpp'), ('coordinates', 'src/api/util.cpp: convert_coordinates')],
     note=NOTE + ' The boost r-tree query is axiomatised (it returns exactly the values satisfying its predicates; nearest(n) the n closest); radii behave as in a box query with strict bounds on each axis, so a point at exactly the radius along an axis is outside.')
prop('C12', 'Point lists and grids keep their members consistent under every operation',
     'A point list or grid holds for every point its coordinates, elevation and land area fraction (missing when not given), and its search tree holds the same coordinates in row-major order; lists of different length, ragged grids and invalid coordinates are rejected. Copies, subsets, points of a grid and the points inside a grid keep all members and the coordinate type; row and column of a tree index, single points and the reported size agree with the arrays; the box found around a position consists of four neighbouring grid points that surround it.',
     'all point lists and grids of any shape, empty ones included, and all indices and positions',
     'Tests use one or two small grids; consistency after each combination of constructor, copy, subset and conversion cannot be sampled.',
     ['src/api/point.cpp', 'src/api/points.cpp', 'src/api/grid.cpp'], [('points', 'src/api/points.cpp'), ('grids', 'src/api/grid.cpp')])
prop('C16', 'Humidity conversions follow their formulas and physical limits',
     'Dewpoint, relative humidity and wetbulb temperature equal their published formulas for every input and are missing when an input is missing. The dewpoint never exceeds the temperature, relative humidity lies in [0, 1] and is 1 at saturation; list versions equal the scalar version element by element and reject lists of different length.',
     'all temperatures, dewpoints, pressures and humidities, missing and infinite values included; lists of any length',
     'Tests check a few hand-computed values; the limits and missing-value rules must hold for every argument.',
     ['src/api/humidity.cpp'], [('formulas', 'src/api/humidity.cpp')])
prop('C17', 'Pressure conversions follow their formulas and reject bad input',
     'Pressure at another elevation, sea level pressure and QNH equal their published formulas for every input; moving pressure to the same elevation leaves it unchanged, and missing input gives missing output where the formula needs it. Sea level pressure rejects negative or out-of-range input, and list versions equal the scalar version element by element and reject lists of different length.',
     'all pressures, elevations, temperatures and humidities, missing and infinite values included; lists of any length',
     'Tests check a few values; branch conditions (elevation limit, missing humidity or dewpoint) and rejection must hold for every argument.',
     ['src/api/pressure.cpp', 'src/api/qnh.cpp'], [('formulas', 'src/api/pressure.cpp'), ('qnh', 'src/api/qnh.cpp')])
prop('C18', 'Wind speed and direction are the polar form of the components',
     'Wind speed is the Euclidean norm of the components and wind direction is the angle the wind comes from, in degrees in one turn. List versions equal the scalar version element by element and reject lists of different length.',
     'all wind components, missing and infinite values included; lists of any length',
     'Tests check the main compass directions; quadrants, zero components and missing values must hold for every argument.',
     ['src/api/wind.cpp'], [('formulas', 'src/api/wind.cpp')])
prop('C24', 'Arrays are compatible exactly when their shapes agree',
     'Two two- or three-dimensional arrays are reported compatible exactly when they have the same number of rows and columns (and depth), whatever their sizes, empty arrays included. An array is compatible with a grid or a point list exactly when its dimensions are those of the grid or the number of points.',
     'all array shapes, empty ones included',
     'Tests compare a few shapes; empty and ragged arrays are not covered.',
     ['src/api/util.cpp', 'src/api/grid.cpp', 'src/api/points.cpp'], [('shapes', 'src/api/util.cpp: compatible_size')])
prop('C26', 'Array initialisers give exactly the requested shape and value',
     'Creating an array of given dimensions gives an array of exactly those dimensions with every element equal to the requested value, in two and three dimensions, for numbers and integers.',
     'all non-negative dimensions and all values',
     'Tests create one or two small arrays.',
     ['src/api/util.cpp'], [('initialisers', 'src/api/util.cpp: init_vec2, init_vec3, init_ivec2, init_ivec3')])
prop('C20', 'Filling and doping change exactly the cells they cover',
     'Filling from points gives the requested value to exactly the cells inside (or, with the outside option, outside) the union of the circles and leaves every other cell unchanged. Doping gives a cell the value of the last point whose circle or square covers it and whose elevation difference is allowed, and leaves every other cell unchanged. Filling missing values keeps valid cells that are valid in both directions and interpolates linearly along rows and columns between the nearest valid cells, taking the mean of the two directions, and never extrapolates. Mismatched sizes and negative radii, half widths or elevation limits are rejected; the shape never changes.',
     'all grids, points, values, radii, elevations and missing values of any size; fill_missing on generated arrays',
     'Tests fill one small grid; overlapping circles, order of points, elevation limits and gaps at borders are not covered.',
     ['src/api/fill.cpp', 'src/api/doping.cpp'], [('fill', 'src/api/fill.cpp'), ('doping', 'src/api/doping.cpp')])
prop('C15', 'Transformations follow their formulas and undo each other',
     'The identity, logarithmic, Box-Cox, started Box-Cox and gamma transformations equal their formulas in both directions for every value (negative values count as 0 in the Box-Cox transformations), are missing for a missing value, and backward undoes forward on the domain of the transformation. One-, two- and three-dimensional versions transform element by element and keep the shape. The constructors and the inverse gamma distribution reject invalid parameters, levels outside [0, 1] and lists of different length.',
     'all values and parameters, missing and infinite values included; arrays of any shape, ragged and empty ones included; the gamma transformation within bounds only',
     'Tests transform a few values with one parameter each; zero, negative and missing values, parameter signs and ragged arrays must hold for every argument.',
     ['src/api/transform.cpp', 'src/api/distribution.cpp'], [('formulas', 'src/api/transform.cpp'), ('inverse gamma', 'src/api/distribution.cpp')],
     note=NOTE + ' pow, exp and log are uninterpreted with trusted laws; the gamma transformation and gamma_inv (boost distributions) are compared with an independent implementation on generated arguments only.')
prop('C19', 'Counting, distances and gridding use exactly the points within reach',
     'For every output cell or point, counting gives the number of input points within the radius; the distance is the largest distance to the requested number of nearest points; gridding gives the requested statistic of the values within the radius, missing when there are fewer than the minimum number of points; nearest gridding gives every cell the statistic of the values whose nearest cell it is. Outputs have the shape of the output grid or point list, and lists of the wrong length, invalid radii and negative minimum numbers are rejected.',
     'all grids, points, values, radii, numbers and statistics, empty ones and missing values included; nearest gridding on generated arguments without ties',
     'Tests grid a few points on one small grid; which points contribute to which cell for every geometry, and missing values among them, cannot be sampled.',
     ['src/api/count.cpp', 'src/api/distance.cpp', 'src/api/gridding.cpp'], [('counting', 'src/api/count.cpp'), ('distance', 'src/api/distance.cpp'), ('gridding', 'src/api/gridding.cpp')],
     note=NOTE + ' gridding_nearest is checked on generated arguments only (bounded). Trusted: a statistic does not depend on the order of its values, and any two sets of n nearest points have the same largest distance.')
prop('C03', 'Neighbourhood statistics are statistics of the values in the window',
     'Each output cell of a neighbourhood operation is the requested statistic (mean, sum, count, variance, standard deviation, minimum, median, maximum) of the valid values within the half width of the cell, clipped at the borders, over all ensemble members for three-dimensional input; it is missing when the window has no valid value. The brute-force version gives the same results. The output has the shape of the input grid (empty stays empty), and negative half widths and unknown statistics are rejected.',
     'all arrays, half widths and statistics, with missing values anywhere',
     'Tests compare a few small fields; summed-area borders, wide windows on narrow grids and missing values in every position cannot be sampled.',
     ['src/api/neighbourhood.cpp'], [('statistics', 'src/api/neighbourhood.cpp: neighbourhood, neighbourhood_brute_force')], level='exploration')
prop('C04', 'Neighbourhood quantiles are quantiles of the values in the window',
     'Each output cell of the exact neighbourhood quantile equals the interpolated quantile of the valid values in its clipped window (and over all members of an ensemble). The fast version equals the interpolation, between the given thresholds, of the share of window values below each threshold, for a fixed level or one per cell. Windows without valid values give missing; negative half widths, levels outside [0, 1], missing or empty thresholds and arrays of different shape are rejected.',
     'all arrays, levels, half widths and thresholds, with missing values anywhere',
     'Tests compare a few small fields; borders, ties with thresholds, levels per cell and missing values in every position cannot be sampled.',
     ['src/api/neighbourhood.cpp'], [('quantile', 'src/api/neighbourhood.cpp: neighbourhood_quantile, neighbourhood_quantile_fast')], level='exploration')
prop('C09', 'Bilinear interpolation and downscaling follow the surrounding grid cells',
     'Bilinear interpolation of a position inside the input grid is the interpolation between the four grid points that surround it: a convex combination which reproduces the grid values at the grid points, fields that are linear in the coordinates, and constants. Outside the grid, or when a surrounding value is missing, it is the value of the nearest grid point. Downscaling dispatches to the requested method. Outputs have the shape of the output grid or points (also when empty) with each time separate, and values of the wrong shape are rejected.',
     'all input grids, output grids and points, values and times',
     'Tests interpolate a few positions on regular grids; borders, irregular boxes and missing values cannot be sampled.',
     ['src/api/bilinear.cpp', 'src/api/downscaling.cpp'], [('bilinear', 'src/api/bilinear.cpp'), ('downscaling', 'src/api/downscaling.cpp')], level='exploration')
prop('C21', 'Gradients and gradient corrections follow their definitions',
     'The elevation-gradient correction adds the gradient times the elevation difference between the output point and the nearest (or bilinearly interpolated) input; the full correction adds the elevation and land-area-fraction gradients of the nearest grid point, leaving values unchanged where elevations, fractions or gradients are missing. The computed gradient of a cell is the regression slope, or the minimum-maximum slope, over its window, and the default gradient where there are too few values or too little spread. Shapes follow the output and arrays of the wrong shape are rejected.',
     'all grids, points, elevations, fractions, values and gradients, with missing values anywhere',
     'Tests use one small grid; missing elevations and fractions, borders and thin windows cannot be sampled.',
     ['src/api/gradient.cpp', 'src/api/simple_gradient.cpp', 'src/api/calc_gradient.cpp'], [('corrections', 'src/api/gradient.cpp'), ('gradients', 'src/api/calc_gradient.cpp')], level='exploration')
prop('C05', 'Sliding windows in time give the statistic of the window of each value',
     'Each output value of the window function is the requested statistic of the valid values of its row within the window of the given length, ending at the value or centred on it, clipped at both ends of the row. With keep_missing a window with a missing value is missing, and with missing_edges a window that reaches past an end of the row is missing (a count is never missing). Rows are independent, the output has the shape of the input (empty stays empty), and lengths that are not positive, even lengths of centred windows and unsupported statistics are rejected.',
     'all arrays, lengths, statistics and options, with missing values anywhere',
     'Tests compare one short row; edges, missing values at the edges and windows longer than the row cannot be sampled.',
     ['src/api/window.cpp'], [('window', 'src/api/window.cpp: window')], level='exploration')
prop('C07', 'Calibration curves map values exactly, inside and outside the curve',
     'Applying a calibration curve gives a value within the curve its piecewise linear value, and a value outside the curve the value of the chosen extrapolation: unchanged, the end value, or the line through the end point with slope one, the mean slope of the curve or the slope of its outermost segment (below and above independently; a single point extends with slope one). Lists, grids and one curve per cell apply this to each value, keeping shape and order; curves of different or no length and arrays of different shape are rejected. Making a curve monotonic keeps exactly the valid points outside the sections where it does not increase, so the result increases strictly, and a quantile mapping curve consists of the sorted values or of their values at the requested levels.',
     'all values, curves (with repeated knots) and policies, for apply_curve; generated curves for monotonize_curve and quantile_mapping_curve',
     'Tests apply a few curves to a few values; ends, repeated knots, single points and every policy on both sides must hold for every curve.',
     ['src/api/curve.cpp', 'src/api/quantile_mapping.cpp'], [('apply', 'src/api/curve.cpp: apply_curve'), ('monotonic', 'src/api/curve.cpp: monotonize_curve'), ('quantile mapping', 'src/api/quantile_mapping.cpp')],
     note=NOTE + ' monotonize_curve and quantile_mapping_curve are checked on generated curves only (bounded). Inside a curve whose forecast values are not sorted nothing is claimed.')
prop('C10', 'Ensemble downscaling summarises the members of the nearest cell',
     'Downscaling a probability gives each output cell the share of the valid members of the nearest input cell which satisfy the comparison with the threshold of the output cell, missing when no member is valid. Masked downscaling takes for each member the first or the second value according to that comparison of its threshold value (missing when that is missing) and gives the statistic or the quantile of the members.',
     'all grids, ensembles, thresholds, operators, statistics and levels of matching shape',
     'Tests use one small grid with a few members; ties with the threshold, missing members and every operator cannot be sampled.',
     ['src/api/downscale_probability.cpp', 'src/api/mask_threshold_downscale_consensus.cpp'], [('probability', 'src/api/downscale_probability.cpp'), ('masked', 'src/api/mask_threshold_downscale_consensus.cpp')], level='exploration')
prop('C13', 'Optimal interpolation solves its analysis equation',
     'For each grid cell the analysis equals the background plus the weighted innovations of the valid observations within the localisation radius (at most the requested number, with the largest correlations), with weights from the inverse of the correlation matrix plus the error variance ratios; without observations it is the background, and the order of the observations does not matter.',
     'all grids, backgrounds, observations and structure functions', 'Tests analyse a few points in one dimension.',
     ['src/api/oi.cpp'], [('oi', 'src/api/oi.cpp')], level='exploration',
     na='The analysis is computed by armadillo (matrix inversion, templates with expression objects) from virtual structure functions; a contract over it would only restate assumed contracts of the library, and no verifier here reads that C++.')
prop('C14', 'Structure functions are symmetric, bounded and decay with distance',
     'The correlation of two points lies between 0 and 1, is 1 for a point with itself, does not increase with the distance, the elevation or the land-area difference, and is 0 beyond the localisation distance.',
     'all points and scales', 'Tests evaluate a few pairs of points.',
     ['src/api/structure.cpp'], [('structure functions', 'src/api/structure.cpp')],
     na='Every statement is about chains of virtual calls through shared pointers (clone, MultipleStructure, CrossValidation), which the translation to the verifier does not support; contracts on the private one-line formulas alone would not decide it.')
prop('C25', 'The metric optimiser returns a threshold which maximises the score',
     'The optimal threshold returned for a curve has a score which no other candidate threshold exceeds.',
     'all curves, thresholds and metrics', 'Tests optimise one curve.',
     ['src/api/metric_optimizer.cpp'], [('optimiser', 'src/api/metric_optimizer.cpp')],
     na='The search is a heuristic minimisation with a fixed number of steps and no documented optimality guarantee; there is no postcondition to prove beyond what the code happens to do.')
