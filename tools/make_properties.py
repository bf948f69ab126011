#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run after editing."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["tracer/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Every ray continues from the first surface it meets",
 "When a bundle is traced through a scene, each ray goes on from exactly the surface it meets first ahead of its start (a meeting within 1e-6 of the start does not count), at the point where it meets it, and a ray that meets no surface has no continuation. "
 "This holds for every mix of surface shapes and poses, any number and order of objects and nesting of assemblies, any bundle and any number of bounces, except for a ray that meets two surfaces at exactly the same distance.",
 ["inputs", "configurations"], "all scenes of the supported shapes, all rays, all bounce depths",
 "The tests trace a handful of rays through a few fixed two- or three-surface scenes; which surface is first depends on shape, pose, order, nesting and all other rays.",
 ["tracer_engine.py", "quadric.py", "flat_surface.py", "assembly.py"],
 [("minimum over the surfaces' ray parameters", "tracer_engine.py TracerEngine.intersect_ray"),
  ("per-surface selection and merging of outgoing rays", "tracer_engine.py TracerEngine.ray_tracer")],
 [("stack", "ray parameter of each surface for each ray", "tracer_engine.py intersect_ray")],
 ["TracerEngine.ray_tracer result and tree"])

prop("C02", "Each surface shape reports the exact nearest intersection of any ray",
 "Each surface shape (infinite plane, rectangle, disc, triangle, infinite and finite cylinder, sphere, lower hemisphere, sphere cut by a bounding volume, paraboloid, round and hexagonal parabolic dish) reports for a ray the distance to the first point ahead of the ray's start that satisfies the shape's equation and lies inside its outline, and infinity if there is no such point. "
 "It does so at any size, position and orientation, for rays starting outside, inside or on the surface (the starting point itself does not count), and whatever other rays are in the same bundle.",
 ["inputs", "configurations"], "all shapes x sizes x poses x rays x bundle compositions",
 "Tests check a few rays per shape, mostly axis-aligned and in a bundle where every ray behaves the same.",
 ["flat_surface.py", "triangular_face.py", "quadric.py", "sphere_surface.py", "cylinder.py", "paraboloid.py", "boundary_shape.py"],
 [("quadratic equation and choice between its roots", "quadric.py QuadricGM.find_intersections/_select_coords and overrides"),
  ("plane intersection and outline trimming", "flat_surface.py, triangular_face.py find_intersections")],
 None, ["Surface.register_incoming", "GeometryManager.find_intersections"])

prop("C03", "Hit points and normals belong to the selected rays and face them",
 "For every selection of hitting rays out of a bundle, in any order, the i-th reported hit point is where the i-th selected ray meets the surface, and the i-th normal has unit length, is perpendicular to the surface there and points to the side the ray comes from. "
 "This holds for every surface shape, size and pose and for both sides of the surface.",
 ["inputs", "configurations", "histories"], "all shapes x poses x rays x selections of the bundle",
 "Tests read normals for one or two hand-computed hit points, usually selecting all rays in order.",
 ["flat_surface.py", "triangular_face.py", "quadric.py", "sphere_surface.py", "cylinder.py", "paraboloid.py"],
 [("normals flipped against the incoming direction", "each geometry's _normals / get_normals"),
  ("trimming to selected rays", "select_rays of flat_surface.py and quadric.py")],
 None, ["get_normals", "get_intersection_points_global"])

prop("C04", "Reflected and refracted rays obey the laws of optics",
 "A specularly reflected ray keeps its component along the surface and reverses the one along the normal; a refracted ray has unit length, stays in the plane of incidence, crosses to the other side and satisfies Snell's law for the indices of the two sides; beyond the critical angle, and only there, a ray is totally reflected. "
 "A refracted ray carries the index of the side it enters and a reflected one keeps its own, each outgoing ray in a mixed bundle is paired with its own incoming ray, and a dispersive index follows the Hartmann formula for every wavelength.",
 ["inputs"], "all directions, normals, index pairs and mixtures of refracting and totally reflected rays in one bundle",
 "Tests use a few fixed angles; total reflection mixed with refraction in one bundle, near-critical and index-decreasing cases are sampled at best once.",
 ["optics.py", "optics_callables.py"],
 [("vector reflection and Snell's law", "optics.py reflections, refractions"),
  ("index toggling and pairing", "optics_callables.py RefractiveHomogenous, Reflective"),
  ("dispersion", "optics.py refr_idx_hartmann")],
 None, ["optics functions", "Surface.get_outgoing", "traced bundles"])

prop("C05", "Energy is conserved at every interaction and over a whole trace",
 "A reflective surface, specular or diffuse, passes on exactly the fraction of each ray's energy that it does not absorb; a refracting surface splits each ray's energy between reflection and refraction by the unpolarised Fresnel reflectance and loses nothing. "
 "No ray ever has a negative, undefined or larger energy than the ray it came from, so over a trace the source energy equals what was absorbed, what escaped, and what was discarded as negligible or left in flight.",
 ["inputs", "configurations"], "all incidence angles, index pairs, absorptivities, energies and multi-bounce scenes",
 "Tests compare a few energies; two Fresnel tests do not even run here; sums over branching traces are never checked.",
 ["optics.py", "optics_callables.py", "tracer_engine.py"],
 [("Fresnel reflectance", "optics.py fresnel"),
  ("energy factors", "optics_callables.py"),
  ("discarding of weak rays", "tracer_engine.py ray_tracer")],
 None, ["energies of traced bundles"])

prop("C06", "The ray tree is a faithful record of the trace",
 "In the tree recorded by a trace, level 0 is the source bundle and each further ray's parent index names the ray in the level before that it came from, so the ray starts on its parent's line and every ray with continuations is a source ray or above the energy threshold; rays at or below the threshold are recorded, after the others, and never continued. "
 "A ray's history lists its ancestors' indices back to the source, the number of levels never exceeds the requested repetitions, and tracing without a tree yields the same last bundle.",
 ["inputs", "histories", "configurations"], "all scenes, thresholds and repetition counts; all rays of all levels",
 "The tests check parents of two small scenes; thresholds that drop rays in the middle of a multi-surface bundle are not covered, and a ray's history was never called.",
 ["trace_tree.py", "tracer_engine.py", "ray_bundle.py"],
 [("parent index adjustment", "tracer_engine.py ray_tracer"),
  ("weak rays moved to the end of the record", "tracer_engine.py ray_tracer"),
  ("ancestry", "trace_tree.py RayTree.ray_history, ordered_parents")],
 None, ["TracerEngine.tree"])

prop("C07", "A ray's fate does not depend on the other rays in its bundle",
 "With deterministic optics, tracing a bundle gives, apart from the order of rays, exactly the rays, energies, indices and absorbed hits that tracing its parts separately gives, for every way of splitting, reordering, repeating or enlarging the bundle. "
 "This holds for every scene, number of bounces and energy threshold.",
 ["inputs", "configurations"], "all splits, orders and sizes of all bundles",
 "Tests never trace the same rays in two different bundles.",
 ["tracer_engine.py", "quadric.py", "flat_surface.py", "sphere_surface.py", "optics_callables.py"],
 [("vectorised selection of rays", "all geometry managers' find_intersections/select_rays"),
  ("masking by hit and ownership", "tracer_engine.py")],
 None, ["traced bundles"])

prop("C08", "Ray bundles behave as lists of independent ray records",
 "Under any sequence of inheriting (with overrides), deleting, adding, concatenating and setting, a ray bundle behaves as a list of rays each holding its own value of every property, custom properties included: selection keeps order and multiplicity, deletion removes exactly the named rays, joining appends in order, and unset properties stay unset. "
 "The operations never change their operands, and changing some of a derived bundle's rays afterwards never changes the bundle it was derived from.",
 ["histories", "inputs"], "all operation sequences over small bundles, all selectors",
 "Tests do one operation at a time on one bundle, with one kind of selector.",
 ["ray_bundle.py"],
 [("property accessors", "ray_bundle.py RayBundle._create_property"),
  ("derivation", "ray_bundle.py inherit, delete_rays, __add__, concatenate_rays, empty_bund")],
 [("_check_attr", "names of the properties to carry along", "ray_bundle.py")],
 ["get_*/set_*, get_num_rays, has_property"])

prop("C09", "Global placement is the product of the frames after any edit history",
 "After any sequence of adding surfaces, objects and assemblies and of setting the location, rotation or transform of any of them, in any order and at any depth, each surface is placed in the world by the product of the current frames from the top assembly down to it. "
 "Listings of objects and surfaces, drawn meshes and traces all see that placement and the current members, and the scene keeps its own copy of the frames it was given.",
 ["histories"], "all histories of edits on nested assemblies",
 "Tests apply one or two edits to one fixed hierarchy.",
 ["has_frame.py", "assembly.py", "object.py", "surface.py"],
 [("propagation of frames to children", "assembly.py, object.py transform_children; has_frame.py transform_frame"),
  ("aggregation", "assembly.py get_objects, get_surfaces")],
 [("_temp_frame", "frame of the item in world coordinates", "has_frame.py HasFrame")],
 ["Surface.global_to_local, Surface.mesh, traces"])

prop("C10", "Moving scene and light together moves the result rigidly",
 "Applying one rigid motion to a whole scene and to the source rays moves every traced ray by that same motion and changes nothing else: the same surfaces are hit, with the same energies, indices and parents. "
 "It makes no difference at which level of the hierarchy the motion is applied, for every ready-made or user-built scene.",
 ["configurations", "inputs"], "all rigid motions x scenes x rays x hierarchy levels",
 "Tests use fixed poses, mostly axis-aligned.",
 ["has_frame.py", "assembly.py", "surface.py", "flat_surface.py", "quadric.py", "sphere_surface.py", "cylinder.py", "paraboloid.py", "triangular_face.py", "boundary_shape.py"],
 [("working frame of each geometry", "every find_intersections and _normals")],
 None, ["traced bundles"])

prop("C11", "Tracing has no side effects and can be repeated",
 "Tracing changes neither the scene nor the bundle it is given, and, with deterministic optics, a trace gives the same result whatever was traced, moved back, or drawn before, with the same or a new engine; the bundles recorded by an earlier trace do not change afterwards. "
 "A geometry used through its intersection protocol gives the same answers whatever bundles, frames and selections it handled before.",
 ["histories"], "all histories of traces and protocol uses",
 "Tests use a fresh scene, engine and bundle each time.",
 ["tracer_engine.py", "surface.py", "geometry_manager.py", "quadric.py", "flat_surface.py", "ray_bundle.py"],
 [("per-iteration working state and done()", "surface.py, geometry_manager.py, quadric.py, flat_surface.py"),
  ("new bundles by copying", "ray_bundle.py inherit")],
 [("_working_bundle, _vertices, _params, _idxs", "state of the running iteration", "geometry managers")],
 ["input bundles, repeated traces"])

prop("C12", "Receivers account for every hit since the last reset",
 "A receiver's record holds exactly one entry per ray that hit it since it was created or last reset, over any number of traces, bounces and selections: the point hit and the energy absorbed there, in matching order; the total is the energy it took from the rays. "
 "The flux histogram of a concentrator puts each hit's energy in the bin of its position on the receiver, whatever the pose of the concentrator, and conserves the total.",
 ["histories", "inputs"], "all histories of traces and resets, all hits",
 "Tests trace once and look at a fixed list of hits.",
 ["optics_callables.py", "models/homogenized_local_receiver.py", "models/one_sided_mirror.py"],
 [("accumulation of hits", "optics_callables.py AbsorptionAccountant"),
  ("binning in local coordinates", "models/homogenized_local_receiver.py histogram_hits")],
 [("_absorbed, _hits", "hits since the last reset", "optics_callables.py AbsorptionAccountant")],
 ["get_all_hits, histogram_hits"])

prop("C13", "Ray ownership and surface relevance are honoured exactly",
 "After each interaction the object that was hit is asked which outgoing rays it owns and which of its surfaces are relevant to them; in the next step, and only in it, an owned ray is tested against that object's surfaces alone, and a surface declared irrelevant to a ray is not tested for it, while all other surfaces are. "
 "Each answer is applied to its own ray and surface, for every combination of answers, objects, surfaces and discarded rays.",
 ["configurations", "histories"], "all answer tables for small scenes, all bounce sequences",
 "The tests cover a single owning object, with one answer for all rays.",
 ["tracer_engine.py", "object.py", "assembly.py"],
 [("ownership and relevance masks", "tracer_engine.py ray_tracer, intersect_ray"),
  ("default answers", "object.py own_rays, surfaces_for_next_iteration")],
 [("ray_ownership, surfs_relevancy", "masks for the next iteration", "tracer_engine.py ray_tracer")],
 ["which rays reach which surface"])

prop("C14", "One-sided mirrors and receivers act on one side only",
 "Light reaching a one-sided mirror or a directional absorbing reflector from its upper side is reflected with the stated efficiency and light from the other side is absorbed completely, in every pose and for every mixture of rays from both sides. "
 "A one-sided receiver records and absorbs only what reaches its front, its back is opaque, and light leaving such an object never meets that object again at once.",
 ["inputs", "configurations"], "all directions, both sides, all poses, mixed bundles, absorptivities",
 "Tests shoot a few rays at one mirror in one or two poses.",
 ["models/one_sided_mirror.py", "optics_callables.py", "geometry_manager.py"],
 [("direction test against the up vector", "optics_callables.py AbsorberReflector; geometry_manager.py up"),
  ("relevance culling", "models/one_sided_mirror.py surfaces_for_next_iteration")],
 None, ["traced energies, receiver hits"])

prop("C15", "Light sources and diffuse reflection keep their support and distribution",
 "Whatever the random numbers, every ray of a solar-disk source starts on the disk around the given centre perpendicular to the given direction, has unit direction within the given angle of it, and an equal share of flux times area; equal steps in the random numbers cover equal areas of the disk and equal projected solid angles of the cone, independently. "
 "A square source spans the stated square on an even grid with all rays along the direction, and a diffuse reflector sends light only into the half-space the ray came from, cosine-distributed about the normal.",
 ["inputs", "configurations"], "all random outcomes (gridded), directions, sizes, ray counts",
 "Tests of random sources can only sample; the sources have next to no tests.",
 ["sources.py", "optics_callables.py", "spatial_geometry.py"],
 [("inverse-CDF sampling", "sources.py pillbox_sunshape_directions, solar_disk_bundle"),
  ("grid", "sources.py square_bundle"),
  ("rotation to the normal", "optics_callables.py LambertianReflector; spatial_geometry.py rotation_to_z")],
 None, ["generated bundles"])

prop("C16", "Meshes lie on the surface they represent and cover it",
 "Every point of a surface's mesh lies on the surface, inside its outline up to at most one step of the requested resolution, and the mesh reaches all of the outline to within such a step with neighbouring points at most about two steps apart. "
 "In world coordinates the mesh is where rays hit the surface, for every shape that has a mesh, every size, resolution and pose.",
 ["configurations", "inputs"], "all meshable shapes x sizes x resolutions x poses",
 "Tests compare two or three fixed meshes, in local coordinates.",
 ["surface.py", "flat_surface.py", "sphere_surface.py", "cylinder.py", "paraboloid.py", "triangular_face.py"],
 [("local mesh", "mesh() of each geometry manager"), ("transformation to world", "surface.py Surface.mesh")],
 None, ["Surface.mesh"])

prop("C17", "A triangulated surface is the union of its non-degenerate faces",
 "A triangulated surface built from any vertices and faces is hit by a ray exactly where the nearest of its triangles is hit, in the object's pose; faces with no area are left out and every other face is in its own place, in the order given. "
 "This holds for every mix of proper, degenerate, repeated and differently oriented faces.",
 ["inputs", "configurations"], "all small vertex sets, face lists (with degenerate ones) and poses",
 "The test uses one small mesh without degenerate faces before valid ones.",
 ["models/triangulated_surface.py", "triangular_face.py"],
 [("face frames", "models/triangulated_surface.py TriangulatedSurface.__init__"),
  ("barycentric trimming", "triangular_face.py find_intersections")],
 None, ["traces through the object"])

prop("C18", "A spherical lens is a closed body with the stated optics",
 "For every diameter, depth, pair of radii (positive, negative or planar) and index that make a solid lens, the lens's surfaces close a body of the stated diameter, radii and axial depth, so that light entering it leaves it only by crossing a surface, and alternates between the lens's index and 1. "
 "Rays near the axis are focused with the effective focal length that the lens reports, whichever side they come from and wherever the lens is placed.",
 ["configurations", "inputs"], "all lens types x radii x depths x indices x poses",
 "Tests cover one lens of some types, paraxially, and one type's test does not run here.",
 ["models/spherical_lens.py", "sphere_surface.py", "boundary_shape.py", "cylinder.py", "optics_callables.py"],
 [("placement of the surfaces and the closing cylinder", "models/spherical_lens.py SphericalLens.__init__"),
  ("cut spheres", "sphere_surface.py CutSphereGM; boundary_shape.py")],
 None, ["traces through the lens", "focal_length()"])

prop("C19", "Dish concentrators and homogenizers deliver light as their design says",
 "A homogenizer of any aperture, height and efficiency acts as an ideal rectangular light pipe: each ray entering it leaves at the point given by unfolding its straight path, with its energy reduced by the efficiency once per wall bounce. "
 "A round or hexagonal dish reflects every axis-parallel ray within its outline through its focal point with the dish efficiency, and the complete concentrator absorbs at its receiver, at the stated distance, what such rays deliver there.",
 ["configurations", "inputs"], "all apertures, heights, efficiencies, entry points and directions; all dish parameters",
 "Tests trace a few rays through one homogenizer and one dish.",
 ["models/homogenizer.py", "models/homogenized_local_receiver.py", "models/tau_minidish.py", "models/PETAL_dish.py", "models/one_sided_mirror.py", "paraboloid.py"],
 [("walls' placement", "models/homogenizer.py rect_homogenizer"),
  ("assembly of dish, homogenizer and receiver", "models/homogenized_local_receiver.py, tau_minidish.py, PETAL_dish.py")],
 None, ["traces, receiver hits"])

prop("C20", "Aimed heliostats send the sun's light to the target",
 "After aiming, whatever was aimed or changed before and wherever the field is placed, a heliostat at any position reflects sunlight that hits its centre through the target point at the aim height above the field's origin, staying at its position with the stated size; before the first aiming all heliostats face down. "
 "A radial-stagger layout places heliostats exactly on the stated radii and angles within the bounds, with the odd rows shifted by half the angular spacing.",
 ["configurations", "histories", "inputs"], "all positions, aim heights, sun positions and re-aiming histories; all layout parameters",
 "The only aiming test has one sun position (and does not run here); the stagger test has one layout and only checks radii.",
 ["models/heliostat_field.py", "models/one_sided_mirror.py", "spatial_geometry.py"],
 [("bisecting normal, azimuth and elevation rotations", "models/heliostat_field.py aim_to_sun, solar_vector"),
  ("layout", "models/heliostat_field.py radial_stagger")],
 [("_pos, _th", "positions and aim height", "models/heliostat_field.py HeliostatField")],
 ["traces, transforms of the heliostats"])

prop("C21", "Rotation and transform helpers return the proper rigid motions",
 "For every axis, angle, direction and translation, the rotation and transform helpers return a proper rigid motion (orthonormal, determinant +1, last row 0,0,0,1) that fixes its axis and turns by the given angle by the right-hand rule, or moves by the given vector. "
 "The frame built to point along a direction has it as its Z axis and a horizontal X axis, for each direction alone or in an array, including both vertical ones.",
 ["inputs"], "all axes, angles, directions, translations and array sizes",
 "Tests check a handful of angles about coordinate axes.",
 ["spatial_geometry.py"],
 [("rotation formulas", "spatial_geometry.py")],
 None, ["returned matrices"])

prop("C22", "The displayed scene shows exactly the traced rays and current surfaces",
 "Drawing a trace shows, for each ray of the tree that has non-zero energy and is not left out by the ray selector, the segment from its start to where its continuation starts or, if the tree has none, one of the given length along its direction, and nothing else. "
 "After any sequence of replacing the assembly or the source, updating surfaces, redrawing and clearing, the display holds exactly one mesh of each current surface (none after clearing, until redrawn), where the surface is, and the rays of the latest trace of the current source only (none without a source).",
 ["histories", "inputs"], "all ray trees of small scenes, all short histories of display operations",
 "There are no tests of the display, which needs a graphical toolkit.",
 ["mayavi_ui/scene_view.py"],
 [("line connectivity", "mayavi_ui/scene_view.py show_rays"),
  ("mesh bookkeeping", "mayavi_ui/scene_view.py TracerScene")],
 [("_meshes, _lines", "what is drawn", "mayavi_ui/scene_view.py TracerScene")],
 ["calls to the plotting toolkit"])

prop("C23", "Bounding volumes contain exactly the points they describe, in any pose",
 "A bounding sphere, half-space or cylinder says of each point whether it lies inside the volume as placed by its own frame and the frames of what contains it, for any number of points at once and after any sequence of moves. "
 "The bounding rectangle that a sphere reports for a plane is the smallest one around their intersection.",
 ["inputs", "configurations", "histories"], "all volumes x poses x containing frames x points x move histories",
 "Tests cover a sphere without rotation and little else.",
 ["boundary_shape.py", "has_frame.py", "object.py"],
 [("point tests in local coordinates", "boundary_shape.py in_bounds"),
  ("bounding rectangle", "boundary_shape.py bounding_rect_for_plane")],
 [("_temp_frame, _temp_loc", "pose in world coordinates", "boundary_shape.py, has_frame.py")],
 ["in_bounds, bounding_rect_for_plane"])

prop("C24", "The assembly tree widget mirrors the assembly",
 "The tree widget shows, for any assembly, one entry for each sub-assembly, object and surface under the right parent and in the assembly's order, with its caption tag or a numbered default, and replacing the assembly replaces all entries. "
 "Editing an entry's caption changes the tag of exactly that item, and is shown again when the assembly is next displayed.",
 ["configurations", "histories"], "all small assembly hierarchies, taggings and edit histories",
 "The tests need the graphical toolkit and do not run here.",
 ["qt/assembly_tree.py"],
 [("population of the tree", "qt/assembly_tree.py AssemblyTree"),
  ("caption tags", "qt/assembly_tree.py AssemblyTreeItem.update_caption, get_tag, set_tag")],
 [("_tree_tags", "captions of assembly members", "qt/assembly_tree.py")],
 ["entries of the widget, tags"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
