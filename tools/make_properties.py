#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop('C01', 'Elements act only on the photons that reach them',
 "Sending a photon list through any optical element or assembly keeps every photon, in its original row, and a photon that does not reach an element's active surface leaves it with position, direction, polarization, energy, survival probability and all earlier diagnostic values exactly as it came in. Exceptions are documented absorbers: a baffle or support structure sets the probability of photons that miss the openings to zero. A photon that does reach the surface is recorded at the point where its ray meets the surface, carries the identifier of the last element it hit, and diagnostic columns that an element creates hold -1 (identifiers) or NaN (numbers) for photons that did not hit.",
 ['inputs','configurations'], 'every element class, placement, mix of hitting and missing photons, and pre-existing columns',
 'Tests push one or two hand-made photon lists (mostly all-hit) through each class; partial hits, existing columns and repeated passes are rarely combined.',
 ['marxs/optics/base.py','marxs/base/base.py','marxs/optics/baffles.py','marxs/optics/grating.py','marxs/optics/mirror.py','marxs/optics/detector.py','marxs/optics/scatter.py','marxs/optics/filter.py','marxs/optics/multiLayerMirror.py','marxs/missions/arcus/boom.py'],
 [('process_photons','marxs/optics/base.py OpticalElement.process_photons'),('_assign_col_value','marxs/optics/base.py'),('add_output_cols','marxs/base/base.py SimulationSequenceElement')],
 ['photon table before and after element(photons)'])

prop('C02', 'Survival probability is a product of factors in [0, 1]',
 "For every photon an element acts on the survival probability only by multiplying it with a factor between 0 and 1 that depends on that interaction alone, so after any chain of elements the probability equals the initial value times the product of the individual factors, never grows and stays in [0, 1]. A filter, efficiency or order table that would yield a factor outside [0, 1] for a photon that is hit is refused with an error instead of being applied.",
 ['inputs','configurations','histories'], 'any start probabilities, any chain of filters, gratings, stacks, mirrors, absorbers, any filter values',
 'Tests start with probability 1 and look at one element; replacing instead of multiplying, or skipping the range check on one path, goes unnoticed.',
 ['marxs/optics/base.py','marxs/optics/filter.py','marxs/optics/grating.py','marxs/optics/baffles.py','marxs/optics/multiLayerMirror.py','marxs/missions/mitsnl/catgrating.py','marxs/missions/arcus/boom.py'],
 [('_assign_col_value multiplies','marxs/optics/base.py'),('GlobalEnergyFilter','marxs/optics/filter.py'),('EnergyFilter','marxs/optics/filter.py')],
 ['photons["probability"] before/after each element'])

prop('C03', 'A ray hits a surface exactly when its forward path meets it',
 "A photon interacts with a flat or cylindrical surface, placed by any combination of shift, rotation and stretching, exactly when its ray, followed forwards from its current position, meets the surface inside (edges included) the element's extent or angular range; with two candidate points the nearer valid one is used. The reported intersection point then lies on the ray and on the surface, the reported local coordinates are that point's coordinates in the element's own frame in physical units, and the local base vectors are unit vectors tangent and normal to the surface there; for a miss point and local coordinates are undefined (NaN).",
 ['inputs','configurations'], 'all ray positions and directions (in front, behind, parallel, on the edge), all placements, stretches, angular ranges and rotations',
 'A handful of axis-aligned rays are tested; orientation, stretching, backwards rays and wrap-around angle ranges form an unbounded space.',
 ['marxs/math/geometry.py','marxs/math/utils.py','marxs/base/base.py'],
 [('FinitePlane.intersect','marxs/math/geometry.py'),('Cylinder.intersect','marxs/math/geometry.py'),('angle_between','marxs/math/utils.py'),('_parse_position_keywords','marxs/base/base.py')],
 ['geometry.intersect(dir, pos)','element hit pattern and local coordinate columns'])

prop('C04', 'Containers run their parts in order with per-step hooks and history',
 "An assembly processes its parts strictly in the listed order, runs every pre-step before and every post-step after each part (also for nested and empty assemblies), passes the list returned by one part on to the next, and the result equals applying the parts one by one by hand. A history recorder attached as a step stores an independent snapshot of its column per executed step, in order, and formats these as per-photon tracks in which only consecutive unchanged positions are dropped; moving photons along their rays by a distance and back by the same distance restores them.",
 ['programs','histories','configurations'], 'all nestings of sequences, parallel groups and stacks with any pre/post steps and recorders, up to the bounds of the model',
 'Tests use one flat sequence with one recorder; the number of nestings, step placements and returned-vs-modified lists is unbounded.',
 ['marxs/simulator/simulator.py','marxs/optics/base.py'],
 [('BaseContainer.__call__','marxs/simulator/simulator.py'),('KeepCol','marxs/simulator/simulator.py'),('Propagator','marxs/simulator/simulator.py'),('FlatStack.process_photons','marxs/optics/base.py')],
 ['order of calls seen by recording steps','KeepCol.data / format_positions'])

prop('C05', 'Grouped elements sit where group, element and misalignment place them',
 "Each member of a parallel group is placed by: group position, then group misalignment, then shifts (member misalignment, member position, common offset), then rotations (member misalignment last, after member and common orientation), then stretches; members are numbered consecutively from the chosen start, common arguments go to every member and a list with one entry per member is distributed in order. Regenerating the group any number of times gives the same placement and uses only the current settings, two groups built from the same argument objects do not influence each other, and moving the group's reference point (by a shift for any group without its own misalignment, or by a turn for a group without a common offset and with equal stretching of all axes) leaves every member where it was in space.",
 ['inputs','configurations','histories'], 'all placements, misalignments, argument lists, nested groups and sequences of set/regenerate/move operations',
 'Tests check one or two rotations with identity group placement; the composition order only matters when several non-commuting transformations are combined.',
 ['marxs/simulator/simulator.py','marxs/base/base.py','marxs/math/utils.py','marxs/math/rotations.py'],
 [('Parallel.generate_elements','marxs/simulator/simulator.py'),('Parallel.move_center','marxs/simulator/simulator.py'),('ParallelCalculated.calculate_elempos','marxs/simulator/simulator.py'),('ex2vec_fix','marxs/math/rotations.py')],
 ['pos4d and id_num of the group members'])

prop('C06', 'Misalignments are set absolutely, affect only their target, and reset',
 "Every misalignment tool (move a group, move its members, move an element, random wiggle, change grating period, order table or an attribute) sets the misalignment relative to the nominal design instead of adding to an earlier one, so after any history of calls the state depends only on the last call per tool and target, and calling with no displacement restores the nominal state exactly. Elements that were not passed in stay as they were; a list of elements is treated like each element in turn; rotations of groups and of members are about their own centre and shifts are along the axes of the group, while moving a single element displaces it in global coordinates about the origin.",
 ['histories','inputs'], 'all call histories over several tools and several targets up to the bound of the model, with arbitrary displacement values',
 'Each tool is tested with one or two calls; accumulation and cross-talk show only in longer histories with several targets.',
 ['marxs/design/tolerancing.py','marxs/design/uncertainties.py','marxs/simulator/simulator.py','marxs/missions/mitsnl/tolerances.py'],
 [('moveglobal, moveindividual, moveelem, wiggle, varyattribute, varyperiod, varyorderselector','marxs/design/tolerancing.py'),('generate_facet_uncertainty','marxs/design/uncertainties.py')],
 ['pos4d of all elements after each call','grating periods and order tables'])

prop('C07', 'A tolerance campaign runs each setting once, on pristine photons',
 "A tolerance campaign applies each requested parameter set exactly once and in order (and for every energy, if several are given), traces an untouched copy of the same input photons through the instrument each time, and reports one result per setting carrying the parameters that were active when it was computed. The caller's photon list and parameter list are not modified, and a single-degree-of-freedom scan list contains every requested positive and negative step of every degree of freedom plus the nominal point, from which the rows for one degree of freedom can be selected again.",
 ['inputs','programs','histories'], 'all parameter lists (including repeated, reset and missing keys), analysis functions, photon lists and energy lists',
 'Tests run two or three settings with result averages; ordering, leakage from one run into the next and aliasing of inputs are not observable in them.',
 ['marxs/design/tolerancing.py'],
 [('run_tolerances','marxs/design/tolerancing.py'),('run_tolerances_for_energies','marxs/design/tolerancing.py'),('run_tolerances_for_energies2','marxs/design/tolerancing.py'),('generate_6d_wigglelist, select_1dof_changed','marxs/design/tolerancing.py')],
 ['list / table returned by the campaign','instances seen by a recording analysis function'])

prop('C08', 'Gratings obey the grating equation for every placement',
 "For every photon that hits a grating the outgoing direction is a unit vector whose component along the grooves is unchanged, whose component in the surface perpendicular to the grooves changes by order times wavelength over grating period (period may vary over the surface) with the documented sign convention of that grating type, and which stays on the same side of the surface for transmission and the opposite side for reflection. This holds for every placement, groove angle, order, energy and incidence angle; an order that cannot propagate (it would need a direction of more than unit length) is absorbed with direction unchanged. Order zero does not change the direction in transmission, energy is unchanged, and the reported blaze angle is the incidence angle in the plane perpendicular to the grooves.",
 ['inputs','configurations'], 'all placements, groove angles, periods, orders, energies and incidence directions',
 'Tests cover normal incidence or a single tilt for a few orders.',
 ['marxs/optics/grating.py','marxs/missions/mitsnl/catgrating.py','marxs/design/bendgratings.py'],
 [('FlatGrating.diffract_photons','marxs/optics/grating.py'),('order_sign_convention','marxs/optics/grating.py'),('e_groove_coos','marxs/optics/grating.py')],
 ['photons["dir"], order and blaze columns before/after a grating'])

prop('C09', 'Diffraction orders follow the efficiency table in use',
 "Every photon is assigned an order that the order table in use lists with non-zero efficiency for its energy (and blaze angle), orders occur with frequencies proportional to those efficiencies, and the photon's survival factor is the sum of the efficiencies over all orders for that energy and angle. Efficiency files use the entry closest in energy, interpolated tables, inside their range, the (linearly) interpolated value; order lists and efficiency files that are malformed (wrong lengths, undefined, negative or more than 100% total) and interpolated tables that do not form a grid are refused.",
 ['inputs','configurations'], 'all order lists, efficiencies (including zeros), energies and angles',
 'Random order draws are only tested for a few uniform tables; zero-efficiency orders, normalization and table lookup at arbitrary energies are not.',
 ['marxs/optics/grating.py','marxs/missions/mitsnl/catgrating.py','marxs/missions/mitsnl/tolerances.py'],
 [('OrderSelector','marxs/optics/grating.py'),('EfficiencyFile','marxs/optics/grating.py'),('InterpolateEfficiencyTable','marxs/missions/mitsnl/catgrating.py')],
 ['return value of the order table','order column and probability'])

prop('C10', 'Lenses focus: parallel rays meet in one point, centre rays pass',
 "A perfect lens sends all rays that arrive parallel to each other to the one point that the undeviated ray through the optical centre reaches after one focal length, for any placement, focal length, incidence angle and off-axis segment, and its efficiency is the square of the single-reflection efficiency at a quarter of the total deflection angle. A thin lens turns each ray by the distance from the lens centre divided by the focal length, in the plane of ray and centre and towards the axis; a ray through the centre is unchanged, and neither lens changes energy or the hit position.",
 ['inputs','configurations'], 'all lens placements, focal lengths, segment offsets and incoming directions',
 'Tests trace on-axis beams to one detector.',
 ['marxs/optics/mirror.py'],
 [('PerfectLens.specific_process_photons','marxs/optics/mirror.py'),('ThinLens.process_photon','marxs/optics/mirror.py')],
 ['photons["pos"], photons["dir"] after the lens'])

prop('C11', 'Directions stay unit vectors and polarization stays transverse',
 "Whatever source, pointing and elements a photon passes, its direction remains a direction of length one (homogeneous coordinate 0), its position remains a proper point (homogeneous coordinate 1), and its polarization vector remains of unchanged length and perpendicular to the direction (except that it may be undefined after a polarizing mirror which reflects nothing of it, with probability zero). Elements that do not act on polarization only carry the vector along with the turn of the ray: the component perpendicular to the plane spanned by the old and new direction is untouched.",
 ['inputs','configurations','programs'], 'all pointings, element chains and photon lists',
 'Unit tests check polarization for isolated rotations; invariants over chains of different elements and arbitrary geometry are not exercised.',
 ['marxs/math/polarization.py','marxs/source/pointing.py','marxs/source/labSource.py','marxs/optics/grating.py','marxs/optics/mirror.py','marxs/optics/scatter.py','marxs/math/rotations.py'],
 [('parallel_transport','marxs/math/polarization.py'),('add_dir / FixedPointing','marxs/source/pointing.py'),('axangle2mat','marxs/math/rotations.py')],
 ['dir and polarization columns after every element'])

prop('C12', 'Detector coordinates follow from the hit position',
 "For every photon that hits a detector the pixel coordinates are the physical position on the detector, measured from its centre along its own axes (along the arc for a curved detector), divided by the pixel size, with the centre of the corner pixel at (0, 0) for flat detectors, for any size, placement and pixel size; the number of pixels is the size over the pixel size rounded to a whole number, and the user is warned when it is not whole. A charge-resolution model assigns detected energies only to photons that hit, centred on the true energy with the tabulated width at that energy, whichever of width or full-width was tabulated, and leaves the true energy unchanged.",
 ['inputs','configurations'], 'all detector sizes (odd and even pixel numbers), placements, pixel sizes, hit positions and width tables',
 'Tests look at one detector geometry with a few photons.',
 ['marxs/optics/detector.py'],
 [('FlatDetector','marxs/optics/detector.py'),('CircularDetector','marxs/optics/detector.py'),('CCDRedistNormal','marxs/optics/detector.py')],
 ['detpix and det columns','energy_detected column'])

prop('C13', 'Sources emit the requested number, times, energies and polarization',
 "A source run for some exposure time produces photons with times in ascending order between zero and the exposure time, as many as flux times area times exposure for a constant rate (Poisson-distributed around this for a random process), energies as specified (constant, drawn from the tabulated flux density where each entry describes the bin up to its energy, or the user function evaluated at the photon times), polarization angles as specified in the same ways, and probability one. The exposure time is recorded in the header, a user function gets exactly the photon times (and energies), its output is used unchanged, and inputs of wrong unit, length or type are refused.",
 ['inputs','configurations'], 'all flux, energy and polarization forms, exposure times, areas and units',
 'Tests sample a few distributions at one exposure; bin-edge conventions, units, short exposures and combinations are open.',
 ['marxs/source/basesources.py','marxs/math/random.py'],
 [('Source.generate_photons','marxs/source/basesources.py'),('poisson_process','marxs/source/basesources.py'),('RandomArbitraryPdf','marxs/math/random.py')],
 ['photon table and header returned by generate_photons'])

prop('C14', 'Pointing maps the sky rigidly into the instrument frame',
 "A pointing turns sky positions into travel directions by a rotation: a photon from the pointed position travels along the reference axis towards the instrument, angles between any two sky positions are preserved, changing the roll turns the image about that axis by the roll angle, and a reference transformation is applied on top. The polarization vector is perpendicular to the direction and encloses the photon's polarization angle with celestial north in the direction of east, pointing coordinates and roll are recorded in the header, and jitter or dither moves the pointing about axes perpendicular to the optical axis by angles of the requested size (exactly nothing for zero jitter) without changing anything else.",
 ['inputs','configurations'], 'all pointings (including poles and the 0/360 boundary), rolls, source positions, polarization angles, jitters and dither settings',
 'Tests check a handful of coordinates with roll zero or one roll.',
 ['marxs/source/pointing.py','marxs/math/polarization.py','marxs/missions/chandra/dither.py'],
 [('FixedPointing','marxs/source/pointing.py'),('JitterPointing','marxs/source/pointing.py'),('LissajousDither','marxs/missions/chandra/dither.py')],
 ['dir and polarization columns and header after pointing(photons)'])

prop('C15', 'Apertures fill exactly their openings, evenly, and only those',
 "An entrance aperture places every photon at a point inside its opening (inside the rectangle; between inner and outer radius and within the angular range), in the aperture plane for any placement, evenly distributed over the opening, and changes no other physical property; its area is the geometric area of the opening. An aperture made of several openings gives every photon exactly one of them, with frequency proportional to area, records which one, and its area is the sum of the parts; for an inclined beam the probability is multiplied with the cosine of the inclination (zero from behind). The local coordinates on the opening are recorded and impossible openings are refused.",
 ['inputs','configurations'], 'all opening shapes, radii, angular ranges, placements and combinations',
 'Tests draw from default placed openings and compare averages.',
 ['marxs/optics/aperture.py','marxs/math/geometry.py'],
 [('FlatAperture, RectangleAperture, CircleAperture, MultiAperture','marxs/optics/aperture.py')],
 ['pos column after the aperture','area / area_proj','id column'])

prop('C16', 'Extended sky sources have the requested shape on the sky',
 "Every photon of an extended sky source comes from a position whose angular distance and position angle from the source centre follow the requested shape - point sources exactly at the centre, disks and rings strictly between inner and outer radius and even per solid angle, Gaussians with the requested width, letter shapes on the letter - wherever on the sky the source lies, including near the poles and across the 0/360 degree boundary. Time, energy, polarization and number of photons are not affected by the shape.",
 ['inputs','configurations'], 'all source centres, sizes and shapes',
 'Tests use small sources near the equator.',
 ['marxs/source/basesources.py'],
 [('PointSource, RadialDistributionSource, SphericalDiskSource, DiskSource, GaussSource, SymbolFSource','marxs/source/basesources.py')],
 ['ra and dec columns'])

prop('C17', 'Elements designed onto a Rowland torus touch it, facing as requested',
 "Parametric points, solved points and normals of a Rowland torus satisfy the torus equation and its gradient for any radii and placement, and converting a point to torus angles and back returns it. Every element laid out on a torus (grids, rings, circles) has its centre on the torus, lies inside the requested range, is oriented with its normal and edge along the requested directions, elements of a grid fill the requested range, centred and without overlap, elements of a ring are spread evenly counterclockwise from the y axis, elements of a mesh do not overlap, and helper designs (tilted torus, channel pairs) return tori that pass through the points they are specified by. Points off the torus are refused.",
 ['inputs','configurations'], 'all torus radii, placements, ranges, spacings and orientations for which a layout exists',
 'Tests use three or four fixed designs.',
 ['marxs/design/rowland.py','marxs/simulator/simulator.py'],
 [('RowlandTorus','marxs/design/rowland.py'),('ElementsOnTorus, RectangularGrid, CircularMeshGrid, GratingArrayStructure','marxs/design/rowland.py'),('design_tilted_torus, double_rowland_from_channel_distance','marxs/design/rowland.py')],
 ['pos4d of laid out elements','torus.quartic, normal, parametric, xyzw2parametric'])

prop('C18', 'Resolving power and effective area count each photon once, by weight',
 "Effective area is geometric area times the summed survival probability of the selected photons divided by the number of all photons sent, per order or in total; resolving power per order is position over spread computed from photons of that order that have non-zero probability only, and is undefined rather than wrong when there are too few photons. Results do not depend on the row order, on photons that were lost before, or on the order in which diffraction orders are asked for; averages weight each order with its effective area; a found best focus is at least as sharp as any nearby position and the input photons are not changed.",
 ['inputs'], 'all photon lists (missing, lost, undetected photons, empty orders), order lists and areas',
 'Tests use one synthetic list.',
 ['marxs/analysis/gratings.py','marxs/analysis/analysis.py','marxs/analysis/coords.py'],
 [('resolvingpower_from_photonlist, effectivearea_from_photonlist, CaptureResAeff, average_R_Aeff','marxs/analysis/gratings.py'),('sigma_clipped_std, mean_width_2d, find_best_detector_position, detected_fraction','marxs/analysis/analysis.py'),('ProjectOntoPlane','marxs/analysis/coords.py')],
 ['return values'])

prop('C19', 'A response-table column and its header keyword are interchangeable',
 "In a calibration table where a constant column may be stored as a header keyword, every read of that name returns the same values per row whichever form is stored, assigning a constant stores it once as keyword, assigning varying values stores a column, and at no time do both exist. Any sequence of assignments, row selections, copies and write/read round trips through a file preserves the values seen by name; missing mandatory columns or keywords are reported as errors when such a file is written or read.",
 ['histories','inputs'], 'all histories of assign, read, slice, copy, write and read-back with constant and varying values',
 'A few single assignments are tested.',
 ['marxs/reduction/ogip.py'],
 [('ColOrKeyTable','marxs/reduction/ogip.py'),('ColOrKeyColumn','marxs/reduction/ogip.py')],
 ['tab[name], tab.colnames, tab.meta'])

prop('C20', 'Compressed response matrices expand to the matrix they were made from',
 "Compressing a row of a redistribution matrix and expanding it again gives back the original row with all entries above the threshold at their channel and zero elsewhere, for any pattern of zeros; the same holds for whole matrices, for fixed- and variable-length storage, for any first channel number and after writing to and reading from a file. A matrix made from a line-spread function has rows that sum to the enclosed fraction, centred on the energy of the row.",
 ['inputs','configurations'], 'all zero patterns, thresholds, first channels, storage forms',
 'Tests use one small matrix.',
 ['marxs/reduction/ogip.py'],
 [('arr_to_rmf_matrix_row, RMF.full_rmf, RMF.rmf, variable_length_to_fixed_length','marxs/reduction/ogip.py')],
 ['returned matrices and tables'])

prop('C21', 'Order-sorting corrections scale responses exactly once and reversibly',
 "An order-sorting table assigns each wavelength a symmetric-as-specified energy window around the energy at which that order is detected, the sorting factor is the fraction of the detector response inside this window (1 for an unlimited window, 0 for an empty one), and for overlapping orders it is evaluated at the other order's energy. Applying the correction multiplies the effective area by the factor and records it; applying again first undoes the recorded factor, so any history of applications equals the last one applied to the original (except in bins where a recorded factor is zero and cannot be undone), and bulk application writes exactly one file per requested combination and skips those that do not apply.",
 ['histories','inputs'], 'all window definitions, orders, offsets and histories of applications',
 'Tests use one or two energies and single applications.',
 ['marxs/reduction/osip.py'],
 [('osip_range, osip_factor, apply_osip, apply_osip_all','marxs/reduction/osip.py')],
 ['factors, ARF columns, files written'])

prop('C22', 'Provenance tags are attached and inconsistencies are refused',
 "Tagging a photon list adds program version, date and all tags given at setup or at the call to the header, call-time values winning, without changing photon data. The consistency check accepts two headers exactly when every checked keyword is present in both with equal value (or in neither, if missing ones are allowed) and otherwise raises an error; the energy check accepts a list exactly when all energies agree within rounding (an empty list or one without energies passes).",
 ['inputs','configurations'], 'all subsets and values of keywords in two headers and all flag settings',
 'Tests check three of the many combinations of missing / different / equal keywords.',
 ['marxs/base/base.py'],
 [('TagVersion','marxs/base/base.py'),('check_meta_consistent','marxs/base/base.py'),('check_energy_consistent','marxs/base/base.py')],
 ['photons.meta','exceptions'])

prop('C23', 'Searching an instrument finds every matching part, in beam order',
 "Searching a nested instrument for a kind of element returns every part of exactly that kind (or also of derived kinds, if asked) exactly once, in the order photons meet them, at any nesting depth, including matching parts inside other matching parts unless the search is asked to stop at the first match of a branch, and nothing else. The position reported for the first top-level part containing a kind is the smallest one that does, or nothing if there is none.",
 ['programs','configurations'], 'all nestings of containers and elements up to the bound and all search options',
 'Tests search one fixed instrument.',
 ['marxs/simulator/simulator.py'],
 [('elements_of_class','marxs/simulator/simulator.py BaseContainer'),('first_of_class_top_level','marxs/simulator/simulator.py BaseContainer')],
 ['returned lists'])

prop('C24', 'Scatter turns rays by the drawn angle, in the stated plane',
 "A radial scatter turns each photon it hits within the plane containing its ray and the line from the mirror centre to the place of its last interaction by the recorded in-plane angle, and then about that line by the recorded perpendicular angle (any plane serves for a ray through the centre); a random scatter turns the ray by the recorded angle in a uniformly random direction. The angles are drawn with mean zero and the requested width (or taken from the user's function), zero width leaves directions unchanged, each photon is scattered independently of the others, and energy and probability are not affected. Rotation matrices about an axis turn by the given angle about it.",
 ['inputs','configurations'], 'all widths, incoming directions, placements and hit positions',
 'Tests check widths for one on-axis beam.',
 ['marxs/optics/scatter.py','marxs/math/rotations.py'],
 [('RadialMirrorScatter','marxs/optics/scatter.py'),('RandomGaussianScatter','marxs/optics/scatter.py'),('axangle2mat','marxs/math/rotations.py')],
 ['dir and scatter columns'])

prop('C25', 'Drawn shapes coincide with the traced geometry',
 "The points and triangles exported to display an element lie on the geometry used for ray-tracing: boxes and surfaces use the element's placement matrix, triangulated openings cover the frame between outer and inner outline exactly once and leave the opening free, all indices refer to existing points, and combined shapes keep their parts unchanged. Display settings fall back to the element's geometry when not set, colours given as name, tuple or number convert consistently, displaying never changes the traced geometry, and exporting an assembly exports every displayable part once.",
 ['inputs','configurations'], 'all outlines, placements, display settings and assemblies',
 'Tests compare a few fixed triangulations and colour values.',
 ['marxs/visualization/utils.py','marxs/visualization/threejsjson.py','marxs/visualization/x3d.py','marxs/math/geometry.py'],
 [('plane_with_hole, combine_disjoint_triangulations, DisplayDict, get_color, color_tuple_to_hex','marxs/visualization/utils.py'),('triangulate, parametric_surface','marxs/math/geometry.py')],
 ['returned arrays and json objects'])

prop('C26', 'Mirrors reflect specularly and weigh by polarization',
 "A flat reflecting mirror sends a photon off with the incoming direction mirrored at its surface, for any placement and oblique incidence, multiplies the probability with the reflectivity for the two linear polarization components weighted with the share of the photon's polarization in each, and gives the photon the polarization of the reflected amplitudes (the square root of the reflectivities); a photon lost completely stays lost at later mirrors. The part of a multilayer mirror that a photon hits determines which wavelength is reflected, with efficiency taken from the given tables.",
 ['inputs','configurations'], 'all placements, incidence directions, polarizations, energies and hit positions',
 'Tests use one mirror at 45 degrees with a few polarization angles.',
 ['marxs/optics/multiLayerMirror.py','marxs/math/polarization.py'],
 [('FlatBrewsterMirror','marxs/optics/multiLayerMirror.py'),('MultiLayerEfficiency / MultiLayerMirror','marxs/optics/multiLayerMirror.py')],
 ['dir, polarization and probability after the mirror'])

prop('C27', 'Critical-angle grating stacks combine membrane, bars and supports',
 "A photon that crosses a stacked transmission grating is diffracted by the membrane, loses probability by the quality factor to the power of the squared order, either crosses between the fine support bars (diffracted across the main dispersion) or through a bar (undeflected, bar order 0, attenuated by the bar's transmission at its energy) with the open-area fraction, and loses the geometric share covered or shadowed by the coarse support. Photons that hit no facet are absorbed by the holder, the coarse support scatters by the width of its opening's diffraction, bar tilt varies linearly over the facet along its local y axis, order tables with perturbed bars look up a blaze angle with the requested random offset, tilted facets are turned back by exactly the tilt drawn for their bars, and impossible support dimensions are refused.",
 ['inputs','configurations'], 'all orders, energies, incidence angles, support dimensions and tilts',
 'Tests cover one stack and few orders.',
 ['marxs/missions/mitsnl/catgrating.py','marxs/missions/mitsnl/tolerances.py'],
 [('QualityFactor, L1, L2Abs, L2Diffraction, NonParallelCATGrating, CATL1L2Stack, catsupportbars','marxs/missions/mitsnl/catgrating.py')],
 ['order, blaze, probability and dir columns'])

prop('C28', 'Sampling from tabulated distributions follows the table',
 "Draws from a tabulated probability density always lie inside the table's range, fall into each bin with frequency proportional to density times bin width and never into bins of zero density; the first density entry is ignored because it has no lower bin edge. Randomly generated placement errors have the requested width in each of the six degrees of freedom independently, are proper rigid motions and include the requested fixed offset.",
 ['inputs','configurations'], 'all tables (uneven bins, zero bins) and all error widths',
 'Tests draw from one or two tables.',
 ['marxs/math/random.py','marxs/design/uncertainties.py','marxs/source/basesources.py'],
 [('RandomArbitraryPdf','marxs/math/random.py'),('generate_facet_uncertainty','marxs/design/uncertainties.py')],
 ['drawn values'])

prop('C29', 'Laboratory sources emit from their place into their beam only',
 "Every photon of a laboratory source starts where that source type places it, for any source position, direction and opening: at the point source for a cone beam, with travel direction within the requested half opening angle around the requested axis and even per solid angle; on the entrance face for a far source, travelling along the straight line from the distant point through that face, evenly over the face. Directions are unit vectors and polarization is transverse, at the requested angle from the +y axis; positions that are not points in space are refused.",
 ['inputs','configurations'], 'all source positions, beam axes (including along coordinate axes) and opening angles',
 'Tests use one axis.',
 ['marxs/source/labSource.py'],
 [('FarLabPointSource','marxs/source/labSource.py'),('LabPointSourceCone','marxs/source/labSource.py')],
 ['pos and dir columns'])

prop('C30', 'Mission models are assembled from their tables without loss',
 "Predefined instruments place every element listed in their design tables exactly once, at the tabulated place, size, orientation and grating period; booms absorb exactly the photons whose path crosses one of their rods; mirror and throughput tables are applied to the photons of the shell they are tabulated for. Chip coordinates convert to the instrument's tiled coordinate system by the tabulated rotation, scale and origin.",
 ['inputs','configurations'], 'every row of the design tables and any photon list',
 'Tests check numbers of elements and a few positions.',
 ['marxs/missions/chandra/hess.py','marxs/missions/chandra/data.py','marxs/missions/chandra/hrma_py.py','marxs/missions/arcus/boom.py','marxs/missions/athena/spo.py','marxs/missions/lynx/mirror.py','marxs/missions/lynx/lynx.py','marxs/missions/AXIS/AXIS.py','marxs/missions/arcus/arcus.py'],
 [('HETG.calculate_elempos','marxs/missions/chandra/hess.py'),('ThreeSidedBoom / FourSidedBoom / Rod','marxs/missions/arcus/boom.py'),('chip2tdet','marxs/missions/chandra/data.py'),('MetaShellEfficiency','marxs/missions/lynx/mirror.py')],
 ['pos4d of elements, photon tables'])

prop('C31', 'Files of an observation describe the photons in them',
 "Completing the header of a file keeps every keyword that was set, adds all keywords that are required, and derives the times from date and length: stop minus start is the exposure time, the start follows the date of the observation, doing it again changes nothing. In an event file every photon of the list appears with its values, event times count from the start given in the header and lie within the observation, keywords for limits and world coordinates carry the number of the column they describe, whatever the order or earlier content of the table, and leave none behind for columns that are gone; the photon list itself keeps its columns. The aspect file has one entry per time step with the pointing and the equivalent attitude at that time, starts at the same time as the event file in whichever order the files are written, and describes itself, not the event table. Sorting columns only reorders them, with pairs of coordinates next to each other. Sky coordinates of an event with the written world coordinate system point at the place on the sky the photon came from. Instruments without limits and names that differ in case only are refused.",
 ['inputs','histories','configurations'], 'all headers, tables, pointings and orders in which keywords are set and files are written',
 'Tests never write these files (the code that does raised exceptions in every call).',
 ['marxs/missions/chandra/fitsheaders.py','marxs/missions/chandra/dither.py','marxs/missions/chandra/chandra_global.py','marxs/missions/chandra/det_acis.py'],
 [('complete_header / add_evt_column_header / sort_columns','marxs/missions/chandra/fitsheaders.py'),('LissajousDither.write_asol','marxs/missions/chandra/dither.py'),('Chandra.write_evt','marxs/missions/chandra/chandra_global.py')],
 ['headers and columns of the files written'])

prop('C32', 'Response files are the product of their parts for the channels they name',
 "An effective area file made for a set of channels and a grating order has one bin per pair of edges, in energy or wavelength and either direction, with energies ascending and the wavelengths that belong to them; in every bin the response is the area of mirrors and gratings of that order (the tabulated one, interpolated, never negative, none outside the table) times the tabulated transmission of every filter times the number of channels whose ray of that wavelength and order lands on a detector chip, so the response of a set is the sum of those of its channels. Header and file name tell the channels and the order, and different responses get different names; channels the instrument does not have are refused. The zeroth order matrix is a Gaussian of the width tabulated for each energy. The analysis of a grid of simulations reports every simulation once at its own energy with the area of each aperture and order and the resolving power measured from that aperture's own zeroth order, added up and averaged over apertures and orders. A grating petal built for a channel has every facet of the table once, mirrored for that channel, with its own period and number; a regular grid of gratings lies on that channel's Rowland torus below its mirrors, turned by the blaze angle, whatever other channels are built, and building it changes neither the configuration nor other models.",
 ['inputs','configurations'], 'all calibration tables, bin edges, orders, sets of channels, chip positions and grids of simulations',
 'Tests of these functions need a calibration database that is not part of the repository and are skipped.',
 ['marxs/missions/arcus/arfrmf.py','marxs/missions/arcus/analyze_grid.py','marxs/missions/arcus/ralfgrating.py','marxs/missions/arcus/arcus.py'],
 [('mkarf / OnCCD / MirrGrat / mkrmf0 / filename_from_meta','marxs/missions/arcus/arfrmf.py'),('aeffRfromraygrid / zeropos / csv_per_order','marxs/missions/arcus/analyze_grid.py'),('CATfromMechanical / RegularGrid','marxs/missions/arcus/ralfgrating.py')],
 ['columns and headers of the response, tables of the grid, elements of the petal'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
