#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, obs=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))
T='pyrayt/_pyrayt.py'; C='pyrayt/components.py'; M='pyrayt/materials.py'; U='pyrayt/utils.py'
W='tinygfx/g3d/world_objects.py'; G='tinygfx/g3d/csg.py'; PR='tinygfx/g3d/primitives.py'; O='tinygfx/g3d/operations.py'; R='tinygfx/g3d/renderers.py'

prop('C01','A ray segment ends on the nearest surface ahead of it',
 "In a trace every ray segment ends at the closest point, strictly ahead of its start along its direction, at which it crosses the boundary of any loaded component, and the segment is attributed to the surface that lies there. This does not depend on the order in which components are listed, on what lies behind the ray, or on whether a component is a single surface, a CSG solid or a factory-made part. A ray with no boundary ahead of it contributes no further segment.",
 ['inputs','configurations'], 'All systems of surfaces, CSG solids and parts in any pose, all component orders, all rays (including rays that start inside a solid or have surfaces behind them).',
 'Tests trace one or two hand-made systems along the x axis; the winner among several overlapping candidates with mixed signs, in any order, is never exercised.',
 [T,G,W],[('nearest hit selection over all components',T+':RayTracer._st_propagate'),('moving rays to the hit and dispatching to the surface',T+':RayTracer._st_interact')],
 ['RayTracer.trace() rows x1,y1,z1,surface'])
prop('C02','The recorded segments of a ray form one unbroken, consistent chain',
 "For every ray id the recorded segments have generations 0,1,2,... without gap or repetition; each segment starts where the previous one ended, displaced by no more than the tracer's tiny offset along the new direction; its tilt columns are a unit vector pointing from its start to its end. Id and wavelength never change along a chain, and intensity, index and direction of a segment are exactly those the previous interaction gave the ray.",
 ['inputs','configurations','histories'],'All systems, all mixtures of rays that die at different generations, all generation limits.',
 'Tests compare a handful of rows of traces in which all rays die together; mixing of columns between surviving rays needs batches in which some rays die at each generation.',
 [T],[('insert into the result frame before advancing the ray set',T+':_RayTraceDataframe.insert'),('trimming of dead rays and offsetting',T+':RayTracer._st_interact')],
 ['RayTracer.trace() rows'],[('ray set','rays alive in the current generation',T+':RayTracer._ray_set'),('frame','ledger of all segments',T+':RayTracer._frame')])
prop('C03','A ray is terminated for exactly the documented reasons',
 "A ray leaves the simulation exactly when it meets no further surface, when a material absorbs it, when an interaction leaves its intensity below the tracer's intensity threshold, or when it has made as many segments as the generation limit allows; the segment that ends in absorption is recorded and nothing follows it, and no ray is dropped or kept for any other reason. A trace always terminates, also between perfectly reflecting surfaces and for a limit of zero.",
 ['inputs','configurations','fault_sequences'],'All layouts of reflecting, refracting, absorbing and attenuating surfaces, all thresholds and generation limits.',
 'Tests check absorption and the generation limit once each; intensity loss below the threshold, limit 0 and combinations of reasons within one batch are not tested.',
 [T,M],[('dead ray mask',T+':RayTracer._st_interact'),('generation counter and limit',T+':RayTracer._st_interact'),('absorber kills the direction',M+':_AbsorbingMaterial.trace')],
 ['number and last rows per ray id in RayTracer.trace()'])
prop('C04','Rays do not influence each other',
 "The segments a ray produces depend only on its own position, direction, wavelength, index and intensity and on the components: tracing any subset, permutation or concatenation of rays, from one or from several sources, gives every ray the same segments as tracing it alone, up to rounding and its id.",
 ['inputs','configurations'],'All batches of rays and all ways to split or reorder them over sources.',
 'Tests never compare a batch with its parts; leakage between rays (wrong masks, shared arrays) only shows for mixed batches.',
 [T,W,G,PR],[('per-surface boolean masks',T+':RayTracer._st_interact'),('bounding box masks',G+':CSGSurface.intersect')],
 ['RayTracer.trace() rows of split and merged batches'])
prop('C05','A tracer session is repeatable and follows its current configuration',
 "Each trace starts from scratch with the tracer's current sources, components, rays per source, generation limit and the current poses and materials of all objects (also after a trace that was broken off by an exception, and for sources and components given as lists, tuples, groups or iterators), so tracing twice without a change gives the same rows, and every setter, load_components call or object movement takes effect in the next trace. Results of earlier traces that the caller kept are not altered by later calls; get_results returns the rows of the last trace until the next trace or reset, after which it is empty, and getters return what was last set.",
 ['histories'],'All histories of construct / set / load / move / trace / reset / get calls.',
 'Tests call trace once per tracer, with a fixed configuration.',
 [T],[('reset and initialisation of the state machine',T+':RayTracer._st_initialize'),('surface lookup table',T+':RayTracer._surface_lut'),('load_components',T+':RayTracer.load_components')],
 ['RayTracer public methods'],[('state','state machine position',T+':RayTracer._state'),('generation number','current generation',T+':RayTracer._generation_number')])
prop('C06','Every emitted ray is accounted for and attributed to its source',
 "A trace emits, for each source in order, the rays that source generates for the rays-per-source setting; ids are consecutive integers over all sources starting at 0 whatever ids a source's own ray set brings along, so that no two rays share an id. First-generation segments carry their source's emission position, direction, wavelength and intensity and the index of the surroundings (1), and the source ids calculated from the results name the source that emitted the ray, also if settings were changed after the trace.",
 ['inputs','configurations','histories'],'All lists of sources (built in or user defined, with equal or different ray counts), all rays-per-source values, also changed after the trace.',
 'Tests use one or two identical sources and never change the setting between trace and attribution.',
 [T,C],[('concatenation of source rays and renumbering',T+':RayTracer._st_initialize'),('source attribution',T+':RayTracer.calculate_source_ids')],
 ['rows with generation 0','calculate_source_ids()'])
prop('C07','CSG objects behave as the set operation on their solids',
 "Along any ray, the hits reported by a union, intersection or difference, nested to any depth, are exactly the boundary crossings of the set operation applied to the operand solids as they are currently posed, each reported with the id of the operand surface on which it lies. Planar surfaces act as sheets that are kept where the rest of the expression contains them.",
 ['programs','inputs'],'All CSG expression trees over spheres, cylinders, paraboloids, cuboids and planes in any pose, all rays.',
 'Tests combine two spheres and shoot a few axis-parallel rays; nesting, attribution and rays that start inside are not covered.',
 [G],[('merging of hit intervals',G+':array_csg'),('sorting of hits and surface ids, culling by bounding box',G+':CSGSurface.intersect')],
 ['intersect() of composite objects'])
prop('C08','Interval merging implements union, intersection and difference',
 "For any two sorted lists of interval end points per ray, padded with infinities, merging them with an operation returns the sorted end points of the union, intersection or difference of the two interval sets, padded with infinities, with the same number of entries as both inputs together, for 1-D arrays and for every column of 2-D arrays alike.",
 ['inputs'],'All pairs of interval lists with finitely many intervals and padding, all operations, with and without sorting the output.',
 'Tests list about ten examples with one or two intervals.',
 [G],[('argsort / parity / cumulative count algorithm',G+':array_csg')],['array_csg()'])
prop('C09','Bounding volumes never lose surface',
 "After any history of transformations of an object, of its parts or of objects that contain it, the object's bounding volume contains every point at which a ray can meet the object, and no ray that meets the object is discarded because of a bounding volume.",
 ['histories','programs','inputs'],'All object trees, all histories of move / rotate / scale / transform calls on any node of the tree before and after nesting, all rays.',
 'Tests check the boxes of single surfaces and of one flat CSG object, moved before it is built.',
 [G,W],[('box from transformed bounding points',W+':TracerSurface._boundary_box_update_fn'),('box of a CSG operation',G+':CSGSurface._update_bounding_box'),('notification of parents',W+':Intersectable.attach_to')],
 ['bounding_volume','intersect()'])
prop('C10','Surface normals are unit vectors pointing out of the object',
 "At every regular surface point of an object in any pose, including non-uniform scaling, the reported normal is a unit vector orthogonal to the surface that points out of the solid it bounds; for the surfaces of a composite this is the outward side of the composite, so subtracted solids have flipped normals, also when differences are nested. Inverting normals flips the sign of every normal of an object, inverting twice restores it, and resetting gives the outward normals of the object again.",
 ['inputs','programs','histories'],'All primitives, poses, CSG trees and sequences of invert and reset calls, all surface points away from edges.',
 'Tests check normals of unit primitives at a few points and one flat difference.',
 [W,G,PR],[('inverse transpose of the pose',W+':TracerSurface.get_world_normals'),('per primitive normals',PR+':*.normal'),('inversion for differences',G+':CSGSurface.__init__')],
 ['get_world_normals()'])
prop('C11','An object\'s pose is the product of its transformation history',
 "After any sequence of move, rotate (degrees or radians), scale and transform calls, the object-to-world transform is the product of the individual world-frame transforms in call order, the world-to-object transform is its inverse, position and orientation are the images of the object's origin and z direction (normalised), and coordinate conversions agree with both. A call that is rejected (non-positive scale factor, unknown angle unit) leaves all of this unchanged, and matrices handed out or conversions made do not let callers change the object.",
 ['histories','inputs'],'All histories of transformation calls with any arguments, including rejected ones, on any kind of world object.',
 'Tests apply one or two operations with round arguments.',
 [W],[('left multiplication of the pose',W+':WorldObject._append_world_transform'),('cached origin, direction and inverse',W+':WorldObject._world_matrix_update_handler')],
 ['get_world_transform, get_object_transform, get_position, get_orientation, to_world_coordinates, to_object_coordinates, get_quaternion'])
prop('C12','Transforming a container moves every member exactly once',
 "Any transformation of a group or of a CSG object (in which nothing is contained twice) applies the same world transform exactly once to the container and to everything it contains at that time, at any nesting depth and with members that were moved individually before; transforming a member moves neither the container nor its siblings, and group membership changes affect only later transformations.",
 ['histories','programs'],'All trees of groups and CSG objects, all interleavings of transforms on containers and members and of membership changes.',
 'Tests move a flat group and a flat CSG object.',
 [W,G],[('group propagation',W+':ObjectGroup._append_world_transform'),('CSG propagation',G+':CSGSurface._append_world_transform')],
 ['get_world_transform() of all nodes'])
prop('C13','Pinned objects get their poses back',
 "When a pin context ends, normally or by an exception, every pinned object has the pose it had on entry, whatever transformations were applied inside to it or to its containers, in whatever order objects are pinned, also for nested pins and for pinned containers together with their members; members of a pinned container that were not moved individually return with it. Exceptions raised inside are propagated.",
 ['histories','crash_points'],'All histories of transformations inside (nested) pin contexts, all points at which the body raises.',
 'Tests move one object once inside a pin.',
 [T],[('recording and restoring poses',T+':pin.__enter__/__exit__')],['get_world_transform() after the with block'])
prop('C14','Primitive surfaces are intersected where their equations say',
 "For a sphere, cylinder, paraboloid, cuboid or planar surface with any size, under any sequence of affine transformations, the reported hit distances of any ray are exactly the (zero or two) parameters at which the ray crosses the transformed surface, a planar surface counting its single crossing twice; rays that miss report no finite distance. This holds on both sides of the ray origin and for rays that start inside, run parallel to an axis or a face, or are tilted by arbitrarily small angles.",
 ['inputs'],'All primitives, sizes, poses and rays except those that touch a surface tangentially or run through an edge.',
 'Tests use unit primitives and axis-parallel rays; parallel and nearly parallel rays take separate code paths.',
 [PR,W,O],[('closed-form intersections',PR+':*.intersect'),('root finding',O+':binomial_root'),('transformation into object space',W+':TracerSurface.intersect')],
 ['intersect() of surfaces'])
prop('C15','Reflection and refraction obey the laws of optics',
 "A mirror reverses exactly the normal component of a ray's direction. Glass bends a ray by Snell's law in the plane of incidence, between the index the ray is currently in and the glass's index at the ray's wavelength when it enters, or the surroundings' index (1) when it leaves, and reflects it totally, keeping its index, beyond the critical angle; directions stay unit vectors. Consequently a ray's index always equals that of the medium it travels in, and interactions change neither the wavelength nor, for mirrors and glass, the intensity of a ray.",
 ['inputs','configurations'],'All directions, surface poses, indices and wavelengths, all sequences of interactions in systems of separate bodies.',
 'Tests check a few angles at an xy plane; the vector law in three dimensions, total reflection inside solids and the bookkeeping over several interactions are not covered.',
 [M,O],[('reflect and refract',O+':reflect/refract'),('index bookkeeping',M+':Glass.trace')],
 ['material.trace()','rows of RayTracer.trace()','tinygfx.g3d.reflect/refract'])
prop('C16','Refractive index is a pure function of wavelength',
 "The index of a glass equals its model (constant, or the Sellmeier equation with its coefficients) for every wavelength, with the same value and shape whether wavelengths are passed as a number, one by one or as arrays of any shape, and the Abbe number is the documented ratio of the indices at the three standard lines for the current coefficients. In a trace each ray is refracted with the index of its own wavelength, whatever other wavelengths share the batch.",
 ['inputs','histories'],'All glasses, wavelengths, array shapes, changed coefficients, mixed-wavelength batches.',
 'Tests check three wavelengths of one glass.',
 [M],[('index models',M+':SellmeierRefractor.index_at/BasicRefractor.index_at'),('Abbe number',M+':Glass.abbe')],['index_at, abbe, rows of mixed-wavelength traces'])
prop('C17','Lens factories build the solid they document',
 "thick_lens, biconvex_lens and plano_convex_lens return, for any radii with their documented sign conventions (infinite radii are planar), thickness, material and circular, rectangular or elliptical aperture, a traceable solid that is centered at the origin, whose first surface faces -X and second surface +X with vertices half the thickness from the origin, whose faces are spheres of the given radii and whose outline is the aperture in the YZ plane; all of its surfaces carry the given material with outward normals, also after the lens is moved.",
 ['inputs','configurations'],'All radii, thicknesses and apertures for which the spherical faces span the aperture, all poses, all rays.',
 'Tests check helper functions and trace one lens.',
 [C],[('lens factories',C+':thick_lens/biconvex_lens/plano_convex_lens'),('aperture construction',C+':_create_aperture')],['intersect(), surface_ids, get_world_normals() of the returned object'])
prop('C18','Mirror factories build the surface they document',
 "plane_mirror, spherical_mirror and parabolic_mirror return, for any size, aperture and off-axis shift, a solid whose reflecting face is the documented plane (between x=-thickness and x=0), sphere (vertex at the origin, centre at x=radius) or paraboloid (focus at the origin, vertex at x=-focus), cut to the aperture in the YZ plane around the off-axis point, with the documented back plane; for curved mirrors exactly that face is reflecting and all other faces absorb.",
 ['inputs','configurations'],'All radii, focal lengths, thicknesses, apertures and off-axis shifts for which the face spans the aperture, all poses, all rays.',
 'Tests do not build mirrors with rectangular, elliptical or shifted apertures.',
 [C],[('mirror factories',C+':plane_mirror/spherical_mirror/parabolic_mirror')],['intersect(), surface_ids and materials of the returned object'])
prop('C19','Stops block and pass exactly the specified regions',
 "A baffle absorbs every ray that crosses the plane x=0 of its frame inside the specified circle, rectangle or ellipse and lets all others pass; an aperture does the same except that rays inside its opening pass unaffected. A prism is the equilateral triangular solid of the given side length and width about the origin with its base parallel to the XY plane and one material on all faces.",
 ['inputs','configurations'],'All sizes and shapes of stop and opening, all prisms, all poses, all rays.',
 'Tests do not trace rays through stops of other than square size.',
 [C],[('stop and prism factories',C+':baffle/aperture/equilateral_prism')],['intersect() and materials of the returned object'])
prop('C20','Sources emit the documented ray pattern from their current pose',
 "For any pose and ray count, a line source emits parallel rays evenly spaced over its spacing, a circle source parallel rays evenly spaced around its circle, a cone source rays from one point evenly distributed at its cone angle to the axis, and a wedge source rays from one point evenly spaced over its full angle; all are carried into the world by the pose the source has at the time of the call, have unit direction, the source's current wavelength, intensity 100, index 1 and generation 0. Each call returns fresh rays that the caller may modify without affecting the source.",
 ['inputs','histories'],'All source parameters, poses, ray counts, interleavings of movement, wavelength changes and generation.',
 'Tests check unmoved sources with a few rays.',
 [C],[('local ray patterns',C+':*._local_ray_generation'),('pose and normalisation',C+':Source.generate_rays')],['generate_rays()'])
prop('C21','Lamps emit within their extent and static lamps repeat themselves',
 "Every ray of a lamp starts on its width by length rectangle, has a unit direction within the maximum angle of the lamp's axis and an intensity of 100 times the cosine of that angle, in every pose, and a lamp draws new rays on each call, spread evenly and independently over the rectangle and over the solid angle of the cone. A static lamp emits, in its own frame, the same rays on every call with the same ray count, however many lamps and ray counts are in use and whatever callers do to the returned rays, while still following its current pose and wavelength.",
 ['inputs','histories'],'All lamp parameters, poses, ray counts and interleavings of calls, movements and wavelength changes on several lamps.',
 'Tests do not cover lamps.',
 [C],[('sampling',C+':_sphere_sample/Lamp._local_ray_generation'),('caching',C+':StaticLamp')],['generate_rays()'])
prop('C22','Rendered images show the nearest surface in front of the camera',
 "A camera emits one parallel ray per pixel, evenly covering its span around its position along its viewing direction; a rendered image paints exactly the pixels whose ray meets a surface in front of the camera, shaded image pixels have the colour that the material of the nearest such surface gives for its point and normal, and outline images mark exactly the boundaries between pixels that see different surfaces. Drawing a scene in the xy or xz view places these pixels, within one pixel, at the plot coordinates of the objects, seen from +z or -y, and without given bounds the drawing shows the whole of every component, also when some of them are empty.",
 ['inputs','configurations'],'All scenes, cameras, poses, resolutions, both renderers and both views.',
 'Tests only check the shape of two images.',
 [R,W,'tinygfx/g3d/materials/gooch.py'],[('nearest hit per pixel',R+':*._st_propagate'),('canvas',R+':*._st_interact'),('camera placement',R+':_draw_xy/_draw_xz'),('camera rays',W+':OrthographicCamera')],['generate_rays(), render(), draw()'])
prop('C23','Utility formulas hold over their whole domain',
 "wavelength_to_rgb returns one row of channel values between 0 and 1 per wavelength, each depending only on its own wavelength and following the piecewise linear ramps between 0.38, 0.44, 0.49, 0.51, 0.58, 0.645 and 0.75 um raised to gamma, with wavelengths outside treated as the nearest limit; it accepts numbers and arrays. lensmakers_equation returns the focal length of the thick-lens formula for every combination of radii, index and thickness with a nonzero power, including planar sides, and agrees with where a traced thick lens focuses paraxial rays.",
 ['inputs'],'All wavelengths (inside, at and outside the limits), gammas, batches; all lens parameters.',
 'Tests sample two wavelengths and one lens.',
 [U],[('colour ramps',U+':wavelength_to_rgb'),('lensmaker equation',U+':lensmakers_equation')],['wavelength_to_rgb(), lensmakers_equation()'])
prop('C24','Identities are unique and ray metadata are independent views',
 "Every world object ever created, of whatever kind, has an id no other object has, it never changes, and the surface ids of a composite are exactly those of its leaf surfaces. A ray set starts with the documented defaults, and each of its fields (rays, generation, intensity, wavelength, index, id) reads and writes only its own part of the set, for the whole set or any subset, without affecting other fields or other sets.",
 ['histories','inputs'],'All creation histories of objects; all sequences of field writes on ray sets of any size.',
 'Tests check ids of two objects and single field writes.',
 [W,T],[('class-wide counter',W+':CountedObject'),('field views',T+':RaySet')],['get_id(), surface_ids, RaySet fields'])
prop('C25','A plotted trace shows exactly the segments of that trace',
 "RayTracer.show draws, over the drawing of the current components, one arrow per row of the last trace, from the start to the end of that segment in the plane of the chosen view and nothing else, whatever was traced, reset, moved or shown before. Arrows coloured by wavelength have the colour wavelength_to_rgb gives for their ray, arrows coloured by source differ exactly between sources, and showing changes neither the results nor what a later trace computes.",
 ['histories','inputs'],'All histories of traces, resets, changes of settings and calls of show on several tracers, both views, all colour modes, all systems.',
 'Tests do not call show.',
 [T,R],[('arrows',T+':RayTracer.show'),('drawing of the components',R+':draw')],['arrows and image of the axis passed to show(); get_results()'])
prop('C26','Asking questions changes nothing',
 "Intersecting, tracing, rendering, drawing, generating rays and every getter or conversion leave the arrays they are given and all objects of the scene as they were: the same question asked again, with any other questions and any use of the returned arrays in between, has the same answer as long as no object is transformed or reconfigured. No array that was returned (hits, normals, rays, images, matrices, positions) or passed in (rays, points, matrices, corners) remains connected to the scene, whatever the caller later writes into it.",
 ['histories','inputs'],'All interleavings of questions of every kind (also ones that end with an exception), changes of objects and overwriting of returned or passed arrays.',
 'Tests ask each question once.',
 [W,G,PR,O,R,T,C,M],[('ray/object coordinate conversion',W+':TracerSurface.intersect/get_world_normals'),('cached rays, boxes and matrices',C+':StaticLamp, '+W+':Intersectable.bounding_volume'),('interaction on copies',T+':RayTracer._st_interact, '+O+':reflect/refract')],['every public query of the packages'])
prop('C27','The building blocks hold what they are given',
 "Points, vectors, homogeneous coordinates, colours and rays hold copies of exactly the numbers they are made from (w is 1 for points and 0 for vectors, alpha is 1 and every other omitted number has its documented default), their named fields, origin and direction read and write exactly those numbers, and normalize scales the first three entries to unit length in place. Disks and rectangles contain exactly the points up to their radius or half lengths, bounding boxes span exactly the extremes of their points, the polynomial solvers return exactly the real (or smallest positive) roots, element-wise products belong to their own row or column, and constructors of surfaces, parts and sources with omitted or keyword arguments build the same objects as with the documented defaults spelled out.",
 ['inputs','histories'],'All values, all sequences of making, viewing, writing and normalizing, all coefficient arrays including mixed linear and quadratic cases, all ways to pass arguments.',
 'Tests check a few fixed values, polynomials of one kind per call and no rays made from other rays\' parts.',
 [PR,O,W,C,'tinygfx/g3d/materials/color.py'],[('coordinates and rays',PR+':HomogeneousCoordinate/Point/Vector/Ray'),('plane shapes',PR+':Disk/Rectangle'),('solvers and products',O+':binomial_root/smallest_positive_root/element_wise_dot'),('boxes and alternative constructors',W+':bounding_box/Cuboid.from_sides/from_length')],['the named classes and functions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,sch)
    assert p['statement'].count('. ')<=2, (p['id'], p['statement'].count('. '))
print(len(P))
