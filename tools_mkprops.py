"""Regenerates properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IN = "hyvr/input/"
p("P01", "Option values are read exactly as spelled, in the documented shape, or rejected",
  "Every option value in a configuration section is read as exactly the number, boolean, string or nested list that is written, independent of white space and line breaks, and a value with fewer nesting levels than the option documents is repeated over the missing outer levels. A malformed list, a value of the wrong type, a wrong length or nesting depth, a value outside the allowed choices or a value whose missing levels have no known length raises an error; it is never silently altered, truncated or padded. A missing required option raises an error that names it, a missing optional one takes its default, and an alternative option name is equivalent to the standard one.",
  ["inputs", "configurations"], "all option declarations (type, shape, default, validation, alternatives) and all value texts, nested up to three levels, ragged or rectangular",
  "There are infinitely many declarations and texts; the tests parse five fixed files.",
  [IN + "option_parsing.py"], [("list parser", "parse_list"), ("shape expansion and comparison", "Option.parse, expand_to_shape, compare_shapes"), ("booleans", "parse_bool")],
  ["Section(...).parse(dict) result or exception"])
p("P02", "A parameter file is interpreted completely and inconsistent files are rejected",
  "For every valid parameter file the values that the simulation uses are the values in the file: omitted optional settings take their documented defaults, omitted vertical or lateral cell sizes equal the x cell size, single values are repeated per stratum or facies, and facies names become their position in the list of hydrofacies. A file without a required section or option, with an undeclared facies name, an unknown geometry, structure, output format or heterogeneity level, a malformed contact model, a wrong number of contact surfaces, or a layered structure without its layer distance is rejected with an error before anything is generated.",
  ["configurations", "inputs"], "all parameter files over the documented options, valid and with one defect of any kind",
  "The tests only check a handful of hand-written files; every combination of present, absent, scalar and list options must be read correctly.",
  [IN + "parameters.py", IN + "options.py", "hyvr/geo/contact_surface_utils.py"], [("section parsing", "parse_inifile"), ("facies name lookup", "parse_facies"), ("contact models", "parse_contact_model")],
  ["dictionaries returned by hyvr.input.parameters.parameters()", "exception of hyvr.run()"])
p("P03", "A run never destroys earlier results without permission or touches foreign files",
  "If the run directory already exists and is not empty, a run without permission to overwrite fails with an error and leaves every file below it unchanged; with permission (command line or call argument first, otherwise the setting in the file) all old content is gone and only the new output remains. A run, whatever its configuration, never creates, changes or deletes a file outside its run directory, also not through symbolic links, and a configuration that is rejected leaves earlier output untouched.",
  ["histories", "configurations"], "all histories of runs with mixed overwrite arguments and settings, pre-existing content including nested directories and symbolic links, valid and invalid configurations, library call and command line",
  "The outcome depends on the history of the directory and on the combination of argument and setting, which no test enumerates.",
  [IN + "parameters.py", "hyvr/sim.py", "hyvr/__main__.py"], [("directory set-up", "set_up_directories"), ("overwrite flag", "run, __main__")],
  ["recursive snapshot of the scratch tree before and after each run"])
p("P04", "Each run produces exactly the documented directory layout and a reusable backup",
  "The output directory is the run name (or else the parameter file's name without its last extension) inside the model directory (or else the parameter file's directory); with several realizations each one gets its own three-digit numbered folder, and exactly the requested formats are written, each under the run's name. The run directory also holds a backup of the parameter file, and running that backup again with overwriting allowed regenerates the run in the same directory, with the same configuration and therefore, with the same random seed, the same results.",
  ["configurations"], "all combinations of run name, file name (with dots, spaces), model directory (absolute, relative, absent), number of realizations and set of output formats",
  "The file layout is a function of many optional settings; the tests use one fixed file name and one format.",
  [IN + "parameters.py", "hyvr/sim.py", "hyvr/postprocess/output.py"], [("names and directories", "parameters, set_up_directories"), ("realization folders", "run"), ("formats", "create_outputs")],
  ["file names and contents below the run directory"])
p("P05", "The grid tiles the requested domain exactly",
  "For every origin, cell size and domain size that is a multiple of the cell size, the model has exactly size/cell-size cells per direction, cell centres at origin + (i+1/2)*cell size, all output arrays have that shape with the axes x, y, z, and the coordinate arrays vary only along their own axis.",
  ["inputs", "configurations"], "all origins, cell sizes and numbers of cells in the three directions",
  "Off-by-one errors appear only for particular floating-point combinations of size and spacing.",
  ["hyvr/geo/grid.py", "hyvr/geo/model.py"], [("cell centres", "Grid.__init__"), ("construction from options", "Model.__init__")],
  ["model grid attributes", "shape of output arrays", "vtr coordinates"])
p("P06", "Contact surfaces have the requested elevation and roughness and never cross",
  "A flat contact surface has its given elevation everywhere; a random one has exactly that elevation as mean, and over many realizations the given variance and a correlation that falls with distance relative to the correlation lengths in x and y. Limiting a surface from above (below) by another one yields the cell-wise minimum (maximum) of both, leaves the other surface alone, and the recorded lowest and highest elevations always enclose the surface. In a model, strata and elements follow each other without gap or overlap (the bottom of each is nowhere above its top, the top is the bottom of the one above, and elements stay within their stratum), strata are bounded by their contact surfaces and the top of an element inside a stratum follows the contact model of the element's own type.",
  ["inputs"], "all grids, elevations, variances, correlation lengths, random seeds and pairs of surfaces",
  "The statement is about all pairs of surfaces and about distributions, not single samples.",
  ["hyvr/geo/contact_surface.py", "hyvr/utils.py"], [("surface generation", "ContactSurface.__init__"), ("limiting", "use_lower_surface_value, use_higher_surface_value")],
  ["surface array, zmin, zmax, zmean of contact surfaces"])
p("P07", "Every cell is assigned, with mutually consistent identifiers, facies and angles",
  "After every run each grid cell belongs to exactly one stratum, one architectural element and one facies of the declared ones: the element's type is one that is allowed in that stratum, all cells of an element lie in one stratum and have one type, and all cells of a body (hydrofacies assemblage) lie in one element; body numbers are unique. Cells of a body have a facies that the type's settings (facies, following facies, lag) permit and angles within the permitted ranges; cells without a body have the background facies, azimuth and dip of their element type, or of their stratum where the type gives none, and sheets have no background.",
  ["configurations", "inputs"], "all valid configurations with any mix of strata, element types, structures, contact models and seeds",
  "A hole or a mismatch appears only for particular combinations of surfaces, bodies and grid positions.",
  ["hyvr/assign_points.py", "hyvr/geo/ae_realization.py", "hyvr/geo/model.py"], [("cell assignment", "assign_points"), ("numbering", "Model.generate_model"), ("background", "AERealization.__init__")],
  ["arrays facies, strata, ae, ha, hat, azim, dip of the output"])
p("P08", "Strata and elements are stacked in declared order with the requested thickness",
  "From the top of the model downwards the strata appear in reverse order of their declaration, separated by their contact surfaces, and elements within a stratum are numbered from the top down; going down a column neither number ever decreases. The thickness of an element that does not touch the stratum bottom follows the mean thickness of its type (10 % standard deviation) reduced with the avulsion probability by an amount within the avulsion range, element types occur with their relative probabilities, independently of each other, and a type with probability zero never occurs.",
  ["configurations", "inputs"], "all numbers of strata, contact elevations, element probabilities, mean thicknesses, avulsion settings, origins and seeds",
  "Order and thickness are statements over all configurations and over the distribution of realizations.",
  ["hyvr/geo/stratum.py", "hyvr/geo/model.py"], [("element sequence", "Stratum.__init__"), ("type choice", "prob_choose"), ("strata sequence", "Model.generate_model")],
  ["arrays strata, ae, hat of the output"])
p("P09", "A cell belongs to the topmost body that contains it",
  "Where bodies overlap, a cell belongs to the body with the highest top among the bodies of the uppermost stratum and element that contain it, so upper bodies erode lower bodies, elements and strata; a cell in no body belongs to the background of the element whose bounds enclose it. The result does not depend on the order in which manually placed bodies are listed or on the bodies that surrounding columns or cells belong to (for bodies whose top is not below the bottom of their own element).",
  ["inputs", "configurations"], "all sets of overlapping manually placed bodies in one or several strata, on all grids",
  "Which body wins depends on the positions of all bodies; the search uses short cuts between consecutive cells that fail only for special arrangements.",
  ["hyvr/assign_points.py", "hyvr/geo/trough_ae.py"], [("search from top to bottom", "assign_points, maybe_assign_points_to_ae"), ("sorting of bodies", "TroughAE.generate_objects")],
  ["arrays strata, ae, ha of the output against brute force"])
p("P10", "Troughs have the requested shape, orientation and internal angles",
  "The cells of a trough are exactly those at or below its centre elevation and inside the ellipsoid with the given length, width and depth (half axes length/2, width/2, depth), rotated counter-clockwise by the paleoflow angle, scaled with the linear vertical size trend and, in periodic domains (troughs not larger than the domain), repeated with the domain's period. Cells within the lag height above its base have the lag facies and zero angles; all other cells have, for massive and dipping structure, the trough's dip and its azimuth plus the paleoflow angle, and for bulbs the direction of the ellipsoid's normal at the cell with the dip limited to the trough's dip.",
  ["inputs", "configurations"], "all centres (inside or outside the domain), axes, angles, size trends, lag heights, periodic or not, and all grids",
  "Membership and angles are real functions of about ten parameters; special cases (rotation, period, lag) interact.",
  ["hyvr/geo/trough.py", "hyvr/geo/trough_ae.py", "hyvr/geo/trough_utils.py"], [("membership and angles", "TroughAE.maybe_assign_points_to_object"), ("size", "rand_trough_params"), ("internal structure", "Trough.__init__")],
  ["arrays ha, facies, azim, dip of the output against an analytical model"])
p("P11", "Sheets fill their element completely with layers of the requested thickness",
  "An element of sheets is completely filled: without lens thickness by a single sheet, otherwise by sheets that, from the element's highest point down, have the given thickness (scaled with the vertical size trend at the element's middle) and are cut by the element's top and bottom surface, the lowest one taking the remainder. All cells of a sheet share one azimuth and dip within the given ranges, and a massive sheet has one facies.",
  ["configurations", "inputs"], "all lens thicknesses, size trends, flat and random contacts, origins and grids",
  "The bottom of the last lens and rough contacts are corner cases of geometry that fixed examples do not reach.",
  ["hyvr/geo/sheet.py", "hyvr/geo/sheet_ae.py"], [("stack of sheets", "SheetAE.generate_objects"), ("membership", "SheetAE.maybe_assign_points_to_object")],
  ["arrays ha, ae, azim, dip, facies of the output"])
p("P12", "Channels are parabolic, cross the domain and stack at the aggradation distance",
  "Channel tops lie at multiples of the aggradation distance below the element's mean top, as long as they are above the mean bottom plus the buffer, with the given number of channels per level; from one level to the next each channel moves sideways on its own, by a step drawn uniformly within plus or minus the migration parameter. A cell belongs to a channel if it is not above its top and not below the parabola that is 'depth' deep at the centreline and reaches the top at half the width (both scaled with the vertical size trend); without disturbance the centreline is straight in the mean flow direction and crosses the whole domain, for every origin (step lengths from 0.05, widths up to about the domain length). Lag cells have the lag facies and zero angles, other cells the channel's dip and, for dipping structure, the local flow direction as azimuth.",
  ["inputs", "configurations"], "all widths, depths, flow angles, buffers, aggradation distances, size trends, channel numbers, lag heights, origins and grids",
  "Position and shape depend on continuous parameters and random starts; errors show up only away from the default angle or origin.",
  ["hyvr/geo/channel.py", "hyvr/geo/channel_ae.py", "hyvr/geo/channel_utils.py"], [("levels and starts", "ChannelAE.generate_objects"), ("membership", "ChannelAE.maybe_assign_points_to_object"), ("centreline", "ferguson_curve")],
  ["arrays ha, facies, azim, dip of the output against an analytical model"])
p("P13", "Internal layers are parallel, equally thick and follow the facies sequence",
  "In dipping structures the facies is constant between parallel planes (normal given by the body's dip and azimuth, along the centreline for channels) whose spacing is the set distance, and in bulb sets between concentric ellipsoids whose vertical spacing is the bulb distance. The facies of a layer is one of the facies that may follow the facies of the layer before it (of all facies if no sequence is given), the first one being any of the type's facies.",
  ["inputs", "configurations"], "all dips, azimuths, distances (also larger than the body or smaller than a cell), facies lists, sequences and body positions",
  "Layer indices are floors of real expressions with a random shift, which only go wrong for certain signs, distances or body sizes.",
  ["hyvr/utils.py", "hyvr/geo/trough.py", "hyvr/geo/trough_ae.py", "hyvr/geo/sheet.py", "hyvr/geo/sheet_ae.py", "hyvr/geo/channel.py"], [("facies sequence", "get_alternating_facies"), ("layer index", "maybe_assign_points_to_object")],
  ["array facies within one body"])
p("P14", "Random fields have zero mean and the requested covariance",
  "Generated random fields have the shape of the grid (or one value per selected cell), zero mean over the enclosing box, and scale exactly with the square root of the variance; zero variance gives zero. Over many realizations the covariance between cells follows the Gaussian or exponential model with the given correlation length for each axis; a selection is the restriction of the field of its enclosing box, and the position of the grid's origin is irrelevant.",
  ["inputs"], "all grids, variances, correlation lengths, covariance models, selections, two or three dimensions and seeds",
  "These are statements about distributions and about all sizes (even, odd, single cells).",
  ["hyvr/utils.py"], [("spectral simulation", "specsim")],
  ["returned arrays, for equal seeds and over ensembles"])
p("P15", "Hydraulic parameters of every cell come from its own facies",
  "Conductivity, porosity and anisotropy ratio of each cell are those of the facies of that cell: exactly, if heterogeneity is switched off or on facies level or its variance is zero, and otherwise as geometric (conductivity) or arithmetic (porosity) mean with deviations that have the variance (so scale with the square root of the variance) and the correlation lengths of that facies. Without trends the mean log-deviation vanishes over a body's facies if that fills its enclosing box, conductivities are positive, and if hydraulics are switched off no hydraulic arrays are produced.",
  ["configurations", "inputs"], "all facies tables, all geological models, heterogeneity settings and seeds",
  "The mapping must hold for every cell of every body, including background cells and rare facies.",
  ["hyvr/geo/model.py"], [("parameter assignment", "Model.generate_hydraulic_parameters")],
  ["arrays k_iso, poros, anirat, facies of the output"])
p("P16", "Conductivity tensors are positive definite with the bedding's principal axes",
  "For every cell the conductivity tensor equals the isotropic conductivity within the bedding plane and conductivity divided by anisotropy ratio perpendicular to it, where the bedding normal is the vertical tilted by the dip angle towards the azimuth direction (clockwise angles in degrees). Hence it is symmetric, has eigenvalues K, K and K/ratio, is K times identity for ratio one, and diagonal for zero dip.",
  ["inputs", "configurations"], "all conductivities, ratios, azimuths and dips, alone and for all cells of all runs",
  "The closed formulas agree at the usual test angles even if a term is wrong; only arbitrary angles decide.",
  ["hyvr/optimized.py", "hyvr/geo/model.py"], [("tensor", "set_anisotropic_ktensor"), ("call with angles in radians", "Model.generate_hydraulic_parameters")],
  ["array ktensors of the output"])
p("P17", "All data formats carry the same complete model",
  "For every model the npz, pickle, mat and h5 files contain exactly the model's arrays with identical names, shapes, types and values, and the vtr file contains all scalar arrays on the cells of a rectilinear grid whose edges enclose the domain, each cell with its own value.",
  ["configurations", "inputs"], "all grids, origins, models with and without hydraulics, and all sets of formats",
  "A transposition, a missing field or an off-by-one edge shows only for particular shapes.",
  ["hyvr/postprocess/output.py"], [("writers", "to_npz, to_pickle, to_mat, to_hdf5, to_vtr")],
  ["files read back with independent readers"])
p("P18", "Flow-model inputs describe the same domain, layers and conductivities",
  "The MODFLOW-2005 and MODFLOW 6 inputs have the model's extent and cell sizes, layer 1 at the top, rows along y and columns along x, every cell with the conductivity and vertical anisotropy of the same cell in the model, and prescribed heads at the first (inlet value) and last column (outlet value), for MODFLOW 6 from given heads or from the gradient times the domain length, including its angles of the bedding and the XT3D option they are meant for; the initial heads of MODFLOW 6 fall linearly along x from the inlet to the outlet value. The HydroGeoSphere files list for every cell in model order its running number with tensor components or porosity, to the written precision.",
  ["configurations", "inputs"], "all grids with different sizes per direction, origins, boundary conditions and fields",
  "Axis mix-ups cancel for cubic or symmetric models as used in tests.",
  ["hyvr/postprocess/output.py"], [("writers", "to_modflow, to_mf6, to_hgs")],
  ["input files read back with flopy or as text"])
p("P19", "Runs are reproducible and independent of each other",
  "With the same seed of the global random generator the same configuration always gives identical results, no matter which other models were generated before in the same process, which output formats are requested, or how many further realizations follow. Different realizations of one run are generated from the same configuration: regenerating after any number of realizations with the same seed gives the result of a fresh run.",
  ["histories", "configurations"], "all sequences of runs and realizations over all configurations",
  "State that leaks from one realization or run to the next only shows in particular sequences.",
  ["hyvr/sim.py", "hyvr/geo/model.py", "hyvr/geo/ae_types.py", "hyvr/input/option_parsing.py"], [("realization loop", "run"), ("shared parameter dictionaries", "Stratum.__init__, AEType")],
  ["output arrays of repeated runs"])
p("P20", "Files in the old format give the same model as their new-format equivalent",
  "A parameter file in the deprecated format with any of its alternative option names is accepted and, for the same random seed, yields the same arrays and the same files as the equivalent file in the current format. Features that were removed (lookup tables, display) are refused with an error, and so is an old-format file without a required section, option or layer distance, with a wrong number of values, an unknown geometry, structure, contact, heterogeneity level or output format, or with a facies number that does not exist; earlier output is left alone then.",
  ["configurations"], "all configurations that can be written in both formats, with all alternative names, and with one defect of any kind",
  "Each option is translated separately, so every option and combination can be lost or mistranslated on its own.",
  [IN + "parameters.py", IN + "options_deprecated.py"], [("old options", "options_deprecated.options"), ("conversion", "get_new_parameters_from_deprecated")],
  ["output arrays of both runs"])
p("P21", "Trends multiply exactly the parameters they are declared for",
  "In models with internal heterogeneity, compared with the same model and seed without trends, a trend multiplies the conductivity or porosity of a cell by the linear interpolation between its two factors at the cell's position along z (first factor in the lowest cell, second in the highest) or x (first factor in the first cell, second in the last); trends of an element type apply to all cells of elements of that type only, global trends to all cells, and several trends multiply. Geometry, facies, angles and anisotropy ratio do not change, and the conductivity tensors use the conductivity with trend.",
  ["configurations", "inputs"], "all combinations of element and global trends on all models",
  "There are 2^8 combinations of trends and every model selects different cells.",
  ["hyvr/geo/model.py"], [("trends", "Model.generate_hydraulic_parameters")],
  ["ratio of output arrays of two runs with equal seed"])
p("P22", "Random troughs are placed on the aggradation planes with the requested density",
  "Trough planes start at the mean top of the element and follow in steps of the aggradation distance as long as they are above the highest point of its bottom plus the buffer times the trough depth; on each plane the number of troughs is Poisson distributed with density times domain area, with centres uniform in the domain. If migration is given the lower planes have the same troughs moved by normally distributed steps with the given means and spreads in x and y; orientation angles are uniform in the paleoflow range.",
  ["inputs", "configurations"], "all domains and origins, densities, aggradation distances, buffers, migrations and seeds",
  "Counts and positions are random; only distributions over many generated elements decide.",
  ["hyvr/geo/trough_utils.py", "hyvr/geo/trough_ae.py"], [("positions", "generate_trough_positions"), ("size and angle", "rand_trough_params")],
  ["generated positions; number and extent of bodies in the output"])
p("P23", "The model does not depend on where the coordinate origin is",
  "Shifting the origin of the domain together with all absolute elevations and positions in the file by the same vector gives, for the same seed, the same geological and hydraulic arrays. Only output coordinates move with the origin.",
  ["configurations", "inputs"], "all configurations and all (exactly representable) shift vectors",
  "Most examples use the origin zero, where every missing offset is invisible.",
  ["hyvr/geo/grid.py", "hyvr/geo/model.py", "hyvr/geo/channel_ae.py", "hyvr/geo/trough_utils.py", "hyvr/geo/sheet.py", "hyvr/geo/trough_utils.py"], [("use of grid origin", "everywhere coordinates are computed")],
  ["output arrays of both runs"])
p("P24", "Channel centrelines are continuous, evenly stepped and follow the meander model",
  "Consecutive points of a generated centreline are one step length apart, its velocity vectors point from point to point, and it runs from its start along the mean flow direction; the directions obey the second-order autoregressive meander model with the given wave number, height and noise strength, deterministic for zero noise and with zero-mean noise otherwise. Resampling a curve at a spacing yields points on the curve in their original order, starting with its first point and covering it to within about one spacing of its end (for segments not much longer than one unit).",
  ["inputs"], "all meander parameters, step lengths, flow angles, grids, curves and spacings",
  "Continuous parameters and random curves; end effects only appear for some lengths.",
  ["hyvr/geo/channel_utils.py", "hyvr/optimized.py"], [("curve", "ferguson_curve, ferguson_theta, thetaAR2"), ("resampling", "curve_interp")],
  ["returned point arrays"])
p("P25", "Plotted cross sections show the requested slice",
  "A plot of a cross section at a given x or y shows, at the right coordinates, exactly the cells that contain that position, for every position inside the domain; by default the slice through the centre is plotted, several positions give several plots, and a position outside the domain gives a warning and no data. Given axis limits and colour maps are used for the cross sections they are given for, and the logarithm of the field is shown if it is requested.",
  ["inputs"], "all grids, origins, fields and positions",
  "Index rounding is wrong only for certain positions and origins.",
  ["hyvr/postprocess/plotting.py"], [("slice index", "cross_section_pcolor")],
  ["data and coordinates of the drawn mesh"])
p("P26", "The model does not depend on the unit of length",
  "Expressing all lengths of a parameter file in another unit (sizes, cell sizes, origin, elevations, thicknesses, correlation lengths and body dimensions times a factor, variances of surfaces times its square, trough densities divided by its square, everything without a length unchanged) gives, for the same seed, the same cells in the same bodies, elements, strata and facies with the same angles and hydraulic parameters.",
  ["configurations", "inputs"], "all configurations of sheets, troughs and undisturbed channels and all factors that are powers of two from 1/16384 to 4096 (channels 1/4 to 8)",
  "Absolute tolerances and mixed-up units are invisible at the usual scale of metres.",
  ["hyvr/geo/model.py", "hyvr/geo/stratum.py", "hyvr/geo/trough_ae.py", "hyvr/geo/sheet_ae.py", "hyvr/geo/channel_ae.py", "hyvr/utils.py"], [("all geometric computations", "generate_model, assign_points"), ("random fields", "specsim")],
  ["output arrays of both runs"])
p("P27", "Refining the grid does not change the geology at existing points",
  "With flat contacts and no random fields the same seed gives the same model on every grid of the same domain: where the centres of a coarse and a fine cell coincide, both have the same stratum, element, body, type, facies and angles (and hydraulic parameters). Resolution only decides where the model is sampled.",
  ["configurations", "inputs"], "all configurations with flat contacts, bodies that start inside their own element, refinement factors per direction, origins and seeds",
  "A dependence on cell size or indices is invisible on any single grid.",
  ["hyvr/assign_points.py", "hyvr/geo/stratum.py", "hyvr/geo/trough_ae.py", "hyvr/geo/sheet_ae.py", "hyvr/geo/channel_ae.py"], [("cell assignment", "assign_points, maybe_assign_points_to_object"), ("generation", "generate_objects")],
  ["output arrays of both runs at common cell centres"])
p("P28", "Choices that are left to chance are unbiased and independent",
  "The facies of a massive or bulb body and the first facies of a layered body are each of the type's facies with equal probability; the facies of a further layer is each of the facies that may follow with equal probability; a trough with random structure is massive, dipping, bulb or bulb set with equal probability; dip and azimuth (for bulbs the largest dip) are uniform within their ranges. All these choices are independent of each other and between bodies.",
  ["inputs", "configurations"], "all facies lists, sequences, angle ranges, geometries, structures and seeds",
  "A statement about distributions; single realizations cannot show a bias.",
  ["hyvr/geo/sheet.py", "hyvr/geo/trough.py", "hyvr/geo/channel.py", "hyvr/utils.py"], [("choices per body", "Sheet.__init__, Trough.__init__, Channel.__init__"), ("layers", "get_alternating_facies")],
  ["distributions of facies, azim and dip over bodies and layers in the output"])
p("P29", "Names, listing order and unused declarations do not change the model",
  "Consistently renaming strata, element types or facies changes nothing in the output arrays. Listing the facies or the element types in another order, or declaring further ones that are not used, only renumbers facies and element types accordingly; geology, and hydraulic parameters without random fields, stay the same for the same seed.",
  ["configurations", "inputs"], "all configurations, names (prefixes and case variants of each other, names of options, numerals), permutations and additional declarations",
  "Errors need particular names or an order in which number and position differ.",
  ["hyvr/input/parameters.py", "hyvr/geo/model.py", "hyvr/geo/stratum.py"], [("resolution of names", "parameters, parse_facies"), ("numbering", "setup_from_inifile")],
  ["output arrays of both runs"])
p("P30", "Every valid parameter file runs to completion and gives complete, finite data",
  "A run of any valid parameter file, also with settings at or beyond the usual end of their range (bodies far smaller or larger than cells or domain, or none at all, surfaces rougher than the strata are thick, elements thinner than cells, correlation lengths from tiny to huge, single-cell domains, probabilities zero, reversed or multi-turn angle ranges), ends without an error and writes all documented arrays, one value per cell, with finite numbers, positive conductivities and identifiers of declared strata, element types and facies only.",
  ["configurations", "inputs"], "all valid configurations on grids from one to some hundred cells with up to all settings at extreme values, all seeds",
  "Failures need combinations of unusual settings that no example file has.",
  ["hyvr/geo/model.py", "hyvr/geo/stratum.py", "hyvr/assign_points.py", "hyvr/geo/trough_ae.py", "hyvr/geo/sheet_ae.py", "hyvr/geo/channel_ae.py", "hyvr/utils.py", "hyvr/optimized.py"], [("generation", "Model.generate_model"), ("assignment", "assign_points"), ("hydraulics", "Model.generate_hydraulic_parameters")],
  ["exceptions", "names, shapes, types and values of the output arrays"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
