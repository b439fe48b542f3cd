"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


prop("C01", "A batch of meshes is one geometry in every view, after any history",
     "For every batch containing at least one mesh with faces, whether built from lists or padded tensors and whatever its members' sizes, the list, padded and packed views, index maps, unique edges, face areas and normals, vertex normals, bounding boxes and Laplacian all describe the same geometry. This stays true after any sequence of reads and operations (offset, scale, padded vertex update, clone, detach, copy, indexing, splitting, repeating, joining as batch or as scene, taking submeshes), whichever values had been computed before. An operation that is not in-place leaves every other mesh object's observable values unchanged, and an in-place one changes only its own object.",
     ["histories", "inputs"], "all operation/accessor sequences up to a depth over all small batches (empty, faceless, uneven members, list or padded construction)",
     "Unit tests call one operation on a fresh object; the caches make the result depend on which accessors ran before and on which objects share memory.",
     ["pytorch3d/structures/meshes.py", "pytorch3d/structures/utils.py"],
     [("Meshes", "lazy caches, offset_verts_, scale_verts_, update_padded, clone, detach, __getitem__, extend, submeshes"), ("join_meshes_as_batch / join_meshes_as_scene", "structures/meshes.py")])
prop("C02", "A batch of point clouds is one set of points in every view, any history",
     "For every batch of point clouds (any sizes including empty clouds, with or without normals and features, built from lists or padded tensors), the list, padded and packed views of points, normals and features, their counts and index maps, bounding boxes and box-membership describe the same points with the same attributes attached to each. This stays true after any sequence of reads and operations (offset, scale, padded update, clone, detach, copy, indexing, splitting, repeating, joining, subsampling), whichever values had been computed before. An operation that is not in-place leaves every other point-cloud object's observable values unchanged.",
     ["histories", "inputs"], "all operation/accessor sequences up to a depth over all small batches and attribute layouts",
     "Tests cover single operations on a handful of random clouds; attribute loss depends on construction form, cached representation and order.",
     ["pytorch3d/structures/pointclouds.py", "pytorch3d/structures/utils.py"],
     [("Pointclouds", "lazy list/packed/padded caches of points, normals, features")])
prop("C03", "Voxel grids keep one consistent mapping between voxels and world space",
     "For every batch of volumes (any resolution down to one voxel per side, anisotropic voxel sizes, shifted origins, both corner conventions, uneven sizes), mapping voxel-local coordinates to world and back (for at least two voxels per side) returns the point, the reported coordinate grid is the image of the voxel centres, and the corner convention decides whether local -1 and 1 are centres or outer faces of the border voxels. Indexing, list access, cloning, updating the values and changing sizes or world transform keep each volume's values and mapping, and clones are independent.",
     ["inputs", "histories"], "all small grids x conventions x transforms and all short operation histories",
     "Tests use a few sizes and check one operation at a time.",
     ["pytorch3d/structures/volumes.py"], [("VolumeLocator", "structures/volumes.py"), ("Volumes", "structures/volumes.py")])
prop("C04", "Textures stay attached to the right mesh surface",
     "For every batch of textured meshes (per-vertex features, UV maps, per-face atlases) the colour sampled at a given face and barycentric position of a mesh is unchanged by indexing, splitting, repeating, cloning, joining into a batch or a single scene, and taking submeshes, in any combination and whichever values were computed before. A copy's texture can be changed without changing the original.",
     ["histories", "inputs"], "all short operation histories over small batches of every texture type and every face and a grid of barycentric positions",
     "Tests check tensor shapes and single operations on a few inputs, not the sampled colours after compositions of operations.",
     ["pytorch3d/renderer/mesh/textures.py", "pytorch3d/structures/meshes.py"],
     [("TexturesVertex/TexturesUV/TexturesAtlas", "sample_textures, __getitem__, extend, clone, join_batch, join_scene, submeshes")])
prop("C05", "Texture images packed into one map never overlap and keep their content",
     "For every list of rectangle sizes, packing them into one map places each (possibly turned) rectangle completely inside the reported total size and no two rectangles overlap; identical images may share a place only when they are the same image. ",
     ["inputs"], "all multisets of small rectangles in every order",
     "Tests pack random rectangles; the shelf algorithm's corner cases depend on exact size coincidences.",
     ["pytorch3d/renderer/mesh/utils.py"], [("pack_rectangles / pack_unique_rectangles", "renderer/mesh/utils.py")])
prop("C06", "Composed 3D transforms act like applying their parts in order",
     "For every composition of translations, scalings, rotations and general transforms (batched or single, float32 or float64), transforming points equals applying the parts one after the other, the inverse undoes it, normals stay perpendicular to transformed tangents, and stacking, indexing and cloning commute with application and keep precision. No operation that returns a new transform changes an existing one.",
     ["programs", "inputs"], "all transform expression trees up to a depth over a small alphabet of parts, batch sizes and dtypes",
     "Tests compose two or three transforms with fixed orders; caches of composed matrices and batch broadcasting give combinatorially many paths.",
     ["pytorch3d/transforms/transform3d.py"], [("Transform3d", "compose, inverse, get_matrix, transform_points, transform_normals, stack, __getitem__")])
prop("C07", "Rotation representations convert into each other without changing the rotation",
     "For every rotation, including half turns, identity and near-identity ones, converting between matrices, quaternions, axis-angle, log-rotation, 6D and (away from gimbal lock) Euler angles in any order gives back the same rotation; quaternion products and point rotations agree with matrix products; rigid-motion exponential and logarithm are inverse to each other. Results are finite with finite gradients, whatever other elements are in the batch.",
     ["inputs", "programs"], "all conversion paths up to a length from a grid of rotations containing the special angles, alone and in every batch of two",
     "Tests sample random rotations, which never hit half turns or mixed batches of special cases.",
     ["pytorch3d/transforms/rotation_conversions.py", "pytorch3d/transforms/so3.py", "pytorch3d/transforms/se3.py", "pytorch3d/transforms/math.py"],
     [("matrix_to_quaternion / axis_angle / so3_log_map / se3_exp_map", "transforms")])
prop("C08", "Cameras project and un-project consistently in every coordinate system",
     "For every camera model (perspective, orthographic, field-of-view variants, and fisheye projection), batch size, parameter layout, coordinate convention and image size, projecting to view, NDC or screen space follows the stated camera model, un-projecting a projected point with its depth returns the point, screen and NDC coordinates are related by the image size with +X left/+Y up in NDC and pixel units downward-right on screen. Look-at cameras point at their target, the camera centre is where view coordinates are zero, and converting to and from OpenCV or other supported conventions and back preserves projections.",
     ["inputs", "configurations"], "all camera kinds x parameter layouts x conventions x image aspect x points on a grid",
     "Tests use a few cameras per model; the flag combinations multiply.",
     ["pytorch3d/renderer/cameras.py", "pytorch3d/renderer/camera_utils.py", "pytorch3d/renderer/camera_conversions.py", "pytorch3d/utils/camera_conversions.py", "pytorch3d/renderer/fisheyecameras.py"],
     [("CamerasBase", "transform_points, unproject_points, transform_points_ndc/screen"), ("look_at_view_transform", "renderer/cameras.py")])
prop("C09", "Batched cameras, lights and materials stay aligned per element",
     "For every batched parameter object (cameras, lights, materials) built from any mix of numbers, lists, and tensors that broadcast, element i of every parameter belongs to batch element i; indexing, selecting by list or mask, cloning, joining and gathering per-element values keep that, and a clone is independent of its source. Properties of one element never leak into another's result.",
     ["configurations", "histories"], "all mixes of parameter forms and batch sizes, followed by all short operation histories",
     "Tests build objects with one layout each.",
     ["pytorch3d/renderer/utils.py", "pytorch3d/renderer/lighting.py", "pytorch3d/renderer/materials.py", "pytorch3d/renderer/cameras.py", "pytorch3d/renderer/camera_utils.py"],
     [("TensorProperties / TensorAccessor", "renderer/utils.py"), ("CamerasBase.__getitem__, join_cameras_as_batch", "renderer")])
prop("C10", "Mesh rasterization returns the nearest covering faces of every pixel",
     "For every small triangle scene, image size, blur radius, faces-per-pixel limit and culling/perspective setting, each pixel lists exactly the nearest faces (in depth order) that cover it or lie within the blur radius, with the right depth, barycentric coordinates and signed squared distance, and -1 elsewhere; other meshes in the batch, the internal binning choice and repeated or concurrent runs never change it. Gradients with respect to vertices agree with the derivative of those outputs.",
     ["inputs", "schedules", "configurations"], "all scenes of up to 2-3 triangles on a small vertex lattice x all settings, against an independent per-pixel reference; repeated multi-threaded runs for the work partition",
     "Tests check some scenes; ties, edges through pixel centres, blur overlaps and batch positions are not sampled.",
     ["pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp", "pytorch3d/renderer/mesh/rasterize_meshes.py", "pytorch3d/renderer/mesh/rasterizer.py", "pytorch3d/csrc/utils/geometry_utils.h"],
     [("RasterizeMeshesNaiveCpu", "csrc"), ("rasterize_meshes / MeshRasterizer", "renderer/mesh")])
prop("C11", "Clipping at the near plane and view frustum changes no visible result",
     "For every set of triangles crossing, in front of or behind the clipping plane, alone or in batches, the clipped pieces are exactly the part of each triangle on the visible side, keep its orientation, and every rasterized pixel reports the original face with barycentric coordinates of the original triangle at that point; frustum culling removes only faces that lie completely outside.",
     ["inputs"], "all triangles with vertex depths from a small set around the plane, all batches of up to 3 meshes of them",
     "Tests cover the four clipping cases once each.",
     ["pytorch3d/renderer/mesh/clip.py", "pytorch3d/renderer/mesh/rasterize_meshes.py"],
     [("clip_faces / convert_clipped_rasterization_to_original_faces", "renderer/mesh/clip.py")])
prop("C12", "Point rasterization returns the nearest points within radius of every pixel",
     "For every small set of points with per-point or global radii, image size (square or not), and points-per-pixel limit, each pixel lists exactly the nearest points (in depth order, in front of the camera) of its own cloud whose disc covers the pixel centre, with their depth and squared distance and -1 padding elsewhere; other clouds in the batch do not matter. Gradients agree with the derivative of depth and distance.",
     ["inputs", "configurations"], "all small point scenes on a lattice x settings against an independent per-pixel reference",
     "Tests compare a few scenes with stored expectations.",
     ["pytorch3d/csrc/rasterize_points/rasterize_points_cpu.cpp", "pytorch3d/renderer/points/rasterize_points.py", "pytorch3d/renderer/points/rasterizer.py"],
     [("RasterizePointsNaiveCpu", "csrc"), ("PointsRasterizer", "renderer/points/rasterizer.py")])
prop("C13", "Compositing and blending follow their formulas, ignoring empty slots",
     "For every per-pixel list of fragments, including empty slots anywhere, zero and full opacity and many layers, point compositing (front-to-back alpha, normalised and plain weighted sums) and mesh blending (hard, sigmoid, softmax) give exactly the defined combination of the present fragments and the background, with the matching gradients, and empty slots or other pixels contribute nothing. Blended opacities lie in [0, 1].",
     ["inputs"], "all fragment occupancy patterns x a small value alphabet for depth, distance, opacity and feature",
     "Tests compare to a Python loop on random dense inputs.",
     ["pytorch3d/csrc/compositing", "pytorch3d/renderer/compositing.py", "pytorch3d/renderer/blending.py", "pytorch3d/csrc/blending", "pytorch3d/renderer/points/compositor.py"],
     [("alpha_composite, norm_weighted_sum, weighted_sum", "csrc/compositing"), ("softmax_rgb_blend, sigmoid_alpha_blend, hard_rgb_blend", "renderer/blending.py")])
prop("C14", "Shading lights each pixel from its own mesh, material, light and camera",
     "For every batch of meshes, lights, materials and cameras, a shaded pixel equals texel times (ambient + diffuse) plus specular evaluated with the parameters of the batch element the pixel belongs to: diffuse light falls off with the cosine to the light and is never negative, specular appears only when the light is in front of the surface, and flat, Gouraud and Phong shading differ only in where the normal is taken. Attributes interpolated at a pixel are the barycentric combination of the values at its own face's corners, and are zero where there is no face.",
     ["inputs", "configurations"], "all batch layouts x light kinds x orientations on a small direction alphabet against a scalar reference",
     "Tests use batch-constant parameters or a single direction.",
     ["pytorch3d/renderer/lighting.py", "pytorch3d/renderer/mesh/shading.py", "pytorch3d/renderer/mesh/shader.py", "pytorch3d/ops/interp_face_attrs.py", "pytorch3d/renderer/materials.py"],
     [("diffuse / specular / phong_shading / gouraud_shading / flat_shading", "renderer")])
prop("C15", "Neighbour search returns the true nearest / in-radius points of each cloud",
     "For every pair of point sets with any per-cloud lengths (including zero and fewer points than requested), k-nearest-neighbour search returns the K smallest distances with matching indices in sorted order, ball query returns the first K points within the radius, under both norms where offered, never using padding or another cloud; missing neighbours are marked and gathering values by the result picks exactly those points. Gradients of the distances are those of the formula.",
     ["inputs"], "all small integer-lattice clouds x lengths x K x norm x version against brute force",
     "Tests use random clouds without ties, duplicates or degenerate lengths.",
     ["pytorch3d/csrc/knn/knn_cpu.cpp", "pytorch3d/ops/knn.py", "pytorch3d/csrc/ball_query/ball_query_cpu.cpp", "pytorch3d/ops/ball_query.py"],
     [("KNearestNeighborIdxCpu", "csrc/knn"), ("BallQueryCpu", "csrc/ball_query"), ("knn_gather, masked_gather", "ops")])
prop("C16", "Farthest-point sampling always picks a farthest remaining point",
     "For every point set, lengths and requested counts (scalar or per cloud), each selected point maximises the distance to those already selected of the same cloud, no padding point is ever selected, the start point is the first one, or any point of the cloud if random starts are requested, and missing slots are marked. The returned points are the points at the returned indices.",
     ["inputs"], "all small lattice clouds x lengths x counts",
     "Tests compare to a naive implementation on random points, without ties or short clouds.",
     ["pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp", "pytorch3d/ops/sample_farthest_points.py"],
     [("FarthestPointSamplingCpu", "csrc"), ("sample_farthest_points", "ops")])
prop("C17", "Packing, padding and graph message passing lose and mix nothing",
     "For every sequence of element counts, converting between list, packed and padded layouts (with any trailing shape) and back returns the data, padding holds only the pad value, gradients flow back to exactly the source elements, and gather/scatter and graph convolution over edges sum exactly each vertex's neighbours, directed or not, for any edge list including repeats and self-edges.",
     ["inputs"], "all small count sequences and all small edge lists",
     "Tests use a few random batches.",
     ["pytorch3d/structures/utils.py", "pytorch3d/ops/packed_to_padded.py", "pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp", "pytorch3d/ops/graph_conv.py", "pytorch3d/csrc/gather_scatter/gather_scatter_cpu.cpp"],
     [("list_to_padded, padded_to_list, list_to_packed, packed_to_list, padded_to_packed", "structures/utils.py"), ("packed_to_padded / padded_to_packed", "ops"), ("GraphConv", "ops/graph_conv.py")])
prop("C18", "Splatting points into a volume conserves weight at the right voxels",
     "For every point position, grid size, resolution mask and mode, adding points to a volume deposits each inside point's weight and features into the voxels around it with trilinear (or nearest) weights, nothing outside the grid, starting from the volume's previous content; total density grows by exactly the in-grid weight, and gradients match. Different clouds go only into their own volume.",
     ["inputs"], "a sub-voxel position lattice covering the grid and its border x modes x grids, against an independent reference",
     "Tests use random interior points and one mode at a time.",
     ["pytorch3d/ops/points_to_volumes.py", "pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp"],
     [("add_points_features_to_volume_densities_features", "ops"), ("PointsToVolumesForwardCpu", "csrc")])
prop("C19", "Marching cubes separates inside from outside with a closed surface",
     "For every voxel field whose border is outside, the extracted surface is closed (up to coincident vertices) and consistently oriented, every vertex lies on a grid edge at the level crossing given by linear interpolation, and every grid edge whose ends are on different sides carries a vertex; the C++ and Python implementations describe the same surface and each volume of a batch is treated alone. ",
     ["inputs"], "all inside/outside/at-level patterns of small grids, in every batch position",
     "Tests check a few shapes and stored results; the 256-case table and its neighbour interplay need enumeration.",
     ["pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp", "pytorch3d/ops/marching_cubes.py"],
     [("marching_cubes / marching_cubes_naive", "ops/marching_cubes.py")])
prop("C20", "Cubifying an occupancy grid yields exactly the boundary of the occupied cells",
     "For every occupancy grid, threshold and alignment, the faces produced are exactly the outward-facing sides of occupied cells that border an unoccupied cell or the grid's outside, two triangles each, at the cell's position in the chosen alignment; shared corners are shared vertices, none is unused, and every batch element is treated alone.",
     ["inputs"], "all occupancy patterns of small grids (also in batches) x alignments",
     "Tests check a few patterns.",
     ["pytorch3d/ops/cubify.py"], [("cubify", "ops/cubify.py")])
prop("C21", "Mesh subdivision splits every face in four and moves no surface point",
     "For every mesh or batch of meshes of any connectivity, subdivision adds exactly one vertex per edge at its midpoint (shared by the faces using the edge), replaces each face by four covering it with the same orientation, and carries per-vertex features by the same averaging; reusing a prepared subdivision for other vertex positions gives the same as preparing it anew.",
     ["inputs", "histories"], "all small meshes and batches of them, with and without precomputed topology",
     "Tests check few meshes.",
     ["pytorch3d/ops/subdivide_meshes.py"], [("SubdivideMeshes", "ops/subdivide_meshes.py")])
prop("C22", "Mesh regularisers and smoothing equal their definitions for every batch",
     "For every batch of meshes, edge-length, Laplacian (uniform, cotangent, curvature) and normal-consistency losses equal their definition computed face by face and averaged so that each mesh counts once, faces meeting at non-manifold edges are all paired, and Taubin smoothing and the Laplacian matrices follow their formulas. Empty meshes contribute nothing and never produce NaN.",
     ["inputs"], "all small meshes (open, closed, non-manifold, degenerate) in all small batches",
     "Tests compare to naive code on random meshes; sharing patterns and batch position are what break.",
     ["pytorch3d/loss/mesh_edge_loss.py", "pytorch3d/loss/mesh_laplacian_smoothing.py", "pytorch3d/loss/mesh_normal_consistency.py", "pytorch3d/ops/mesh_filtering.py", "pytorch3d/ops/laplacian_matrices.py", "pytorch3d/csrc/mesh_normal_consistency"],
     [("mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency", "loss"), ("taubin_smoothing, cot_laplacian, norm_laplacian", "ops")])
prop("C23", "Point-to-surface and point-set distances are true minima per batch element",
     "For every batch of point clouds and meshes (including empty elements), point-to-face and point-to-edge distances are the exact minimum squared distance to the faces/edges of the same batch element with the matching gradients, and the chamfer distance equals its definition for every choice of lengths, weights, normals, reduction, norm and direction.",
     ["inputs", "configurations"], "all small lattice clouds x triangles x batch layouts x options against brute force",
     "Tests compare on random generic inputs, where degenerate projections, empty elements and option combinations do not occur.",
     ["pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp", "pytorch3d/csrc/utils/geometry_utils.h", "pytorch3d/loss/point_mesh_distance.py", "pytorch3d/loss/chamfer.py"],
     [("point_mesh_face_distance, point_mesh_edge_distance", "loss"), ("chamfer_distance", "loss/chamfer.py")])
prop("C24", "Oriented 3D box overlap equals the true intersection volume",
     "For every pair of boxes, the reported intersection volume and IoU equal the exact volume of the intersection, are symmetric, lie in [0, 1], give 1 for a box with itself and 0 for separated ones, independent of the other boxes in the batch and of valid corner orderings.",
     ["inputs"], "all pairs of boxes on a lattice of axis-aligned positions/sizes (touching, nested, shared faces) and of a set of rotations",
     "Tests check a dozen stored pairs.",
     ["pytorch3d/csrc/iou_box3d", "pytorch3d/ops/iou_box3d.py"], [("box3d_overlap", "ops/iou_box3d.py")])
prop("C25", "Samples drawn from surfaces and distributions lie where the distribution is",
     "For every mesh batch, each sampled surface point lies on a face of its own mesh, with that face's normal and the texture value at that very point, faces of zero area are never chosen while others exist, and faceless meshes give zeros; for every piecewise-constant density and every random number, inverse-transform samples fall at the exact quantile, are sorted for sorted inputs and stay inside the bins.",
     ["inputs", "configurations"], "all small meshes and weight vectors with every value of the random draws taken from a lattice controlled by the harness",
     "Tests look at statistics of random draws.",
     ["pytorch3d/ops/sample_points_from_meshes.py", "pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp", "pytorch3d/renderer/implicit/sample_pdf.py"],
     [("sample_points_from_meshes", "ops"), ("sample_pdf / sample_pdf_python", "renderer/implicit/sample_pdf.py")])
prop("C26", "Rays pass through their pixels and ray integration conserves opacity",
     "For every camera, image size and sampling mode, each generated ray starts at the camera centre, passes through the point that projects onto its reported image location, has its depths increasing within the requested range, and masked or sub-sampled rays are a subset of the full grid; flattening and joining ray bundles keep each ray's camera. Emission-absorption marching gives front-to-back weights that are non-negative and sum with the remaining transmittance to one, and each colour is that weighted combination.",
     ["inputs", "configurations"], "all small image grids x camera kinds x sampling modes; all density/feature vectors over a small alphabet",
     "Tests check a few configurations and shapes.",
     ["pytorch3d/renderer/implicit/raysampling.py", "pytorch3d/renderer/implicit/raymarching.py", "pytorch3d/renderer/implicit/utils.py", "pytorch3d/renderer/implicit/renderer.py"],
     [("MultinomialRaysampler, NDCMultinomialRaysampler, MonteCarloRaysampler", "renderer/implicit/raysampling.py"), ("EmissionAbsorptionRaymarcher, AbsorptionOnlyRaymarcher", "renderer/implicit/raymarching.py"), ("VolumeSampler", "renderer/implicit/renderer.py")])
prop("C27", "Saving then loading meshes and point clouds gives back the same data",
     "For every mesh or point cloud the formats can express (any vertex/face count including none, normals, colours, UV textures; OBJ, OFF, PLY text and binary, glTF binary), saving and loading returns the same vertices to the written precision, the same faces in order, and the attached normals, colours and texture colours; saving never changes the object, and text and binary variants agree.",
     ["inputs", "configurations"], "all small meshes/clouds x formats x option combinations x value alphabet including extremes",
     "Tests round-trip a few objects per format.",
     ["pytorch3d/io/obj_io.py", "pytorch3d/io/ply_io.py", "pytorch3d/io/off_io.py", "pytorch3d/io/experimental_gltf_io.py", "pytorch3d/io/mtl_io.py", "pytorch3d/io/pluggable.py"],
     [("IO.save_mesh / load_mesh / save_pointcloud / load_pointcloud", "io/pluggable.py")])
prop("C28", "Mesh file readers read every legal spelling of the same file the same way",
     "For every legal layout of a mesh or point file (OBJ absolute or relative indices with any subset of texture/normal references, polygons of any size, comments and whitespace; PLY property orders, types and list widths in text and both binary endiannesses; OFF with comments, colours and polygons), the reader returns the same geometry and attributes, polygons are split into triangles covering them in order, malformed data is rejected with an error, and files are dispatched to the right reader whatever order readers were registered in.",
     ["inputs", "programs"], "all combinations of layout choices for small files generated from one model",
     "Tests parse a few hand-written files.",
     ["pytorch3d/io/obj_io.py", "pytorch3d/io/ply_io.py", "pytorch3d/io/off_io.py", "pytorch3d/io/pluggable.py"],
     [("load_obj, _parse_face", "io/obj_io.py"), ("_load_ply_raw", "io/ply_io.py"), ("_read_off_stream", "io/off_io.py"), ("IO registry", "io/pluggable.py")])
prop("C29", "Configurable components are built from exactly the configuration given",
     "For every configurable class tree (nested, pluggable, optional, enabled or disabled, inherited, overridden defaults, tuples, enums), the default configuration lists every setting, building from it gives the defaults, changing any subset of settings changes exactly those, choosing another registered implementation uses its settings only, and the configuration survives being written to YAML and read back.",
     ["programs", "configurations"], "all class trees from a small grammar x all subsets of overrides",
     "Tests build a few fixed classes.",
     ["pytorch3d/implicitron/tools/config.py"], [("expand_args_fields, get_default_args, run_auto_creation, registry", "implicitron/tools/config.py")])
prop("C30", "Batch samplers deliver exactly the frames and sequences they promise",
     "For every dataset layout (sequences of any lengths, categories), batch size, images-per-sequence option, epoch length and replacement setting, each batch has the requested size, groups the requested number of distinct frames of one sequence or category, respects consecutive-frame and known/unseen splits, covers frames without repetition where promised, and two samplers with the same random state deliver the same.",
     ["inputs", "configurations", "schedules"], "all small dataset layouts x options, with the random choices enumerated through a controlled generator where small enough",
     "Tests run a few random configurations.",
     ["pytorch3d/implicitron/dataset/scene_batch_sampler.py", "pytorch3d/implicitron/dataset/data_loader_map_provider.py", "pytorch3d/implicitron/dataset/train_eval_data_loader_provider.py"],
     [("SceneBatchSampler", "scene_batch_sampler.py"), ("DoublePoolBatchSampler, DataLoaderMap", "data_loader_map_provider.py")])
prop("C31", "Frame datasets select and index exactly the frames matching their filters",
     "For every annotation set and combination of filters (subsets, sequences picked or excluded, categories, per-sequence limits, minimum masks), the frame dataset contains exactly the matching frames, looks frames up by number and by (sequence, frame) consistently, keeps temporal order within a sequence, and evaluation batches refer to the right frames; frame data collates element by element and the JSON and SQL variants agree.",
     ["inputs", "configurations"], "all small annotation tables x all filter subsets, JSON dataset against a relational model and against the SQL dataset",
     "Tests use one generated dataset and never combine a custom SQL clause or a limit on sequences with the other filters.",
     ["pytorch3d/implicitron/dataset/json_index_dataset.py", "pytorch3d/implicitron/dataset/sql_dataset.py", "pytorch3d/implicitron/dataset/frame_data.py", "pytorch3d/implicitron/dataset/dataset_base.py"],
     [("JsonIndexDataset", "json_index_dataset.py"), ("SqlIndexDataset", "sql_dataset.py"), ("FrameData.collate", "frame_data.py")])
prop("C32", "Training statistics always report the average of what was logged",
     "For every sequence of updates, epoch starts, resets, saves and loads over several stat sets, each reported average is the mean of the logged values of that epoch and set, earlier epochs are unchanged, newly added statistics start at the current epoch, and a saved and reloaded history continues as if never interrupted.",
     ["histories", "crash_points"], "all operation sequences up to a depth against a list-of-values model",
     "Tests run one scripted history.",
     ["pytorch3d/implicitron/tools/stats.py"], [("Stats, AverageMeter", "implicitron/tools/stats.py")])
prop("C33", "Point-set alignment recovers the transform that relates the sets",
     "For every pair of corresponding point sets related by a similarity or rigid transform (with or without weights, scale, reflection permitted or not, any batch and any cloud sizes), alignment returns that transform, never a reflection unless allowed, and never does worse than the identity; iterative closest point and perspective-n-point recover exact solutions when started in their basin. Aligning two sets of cameras recovers the similarity between them, and otherwise the best rotation, scale and translation of the extrinsics, never a reflection.",
     ["inputs", "configurations"], "all transforms of a lattice of rotations/scales/translations x point sets x options",
     "Tests check random cases with tolerance.",
     ["pytorch3d/ops/points_alignment.py", "pytorch3d/ops/perspective_n_points.py", "pytorch3d/ops/cameras_alignment.py", "pytorch3d/ops/utils.py"],
     [("corresponding_points_alignment, iterative_closest_point", "ops/points_alignment.py"), ("efficient_pnp", "ops/perspective_n_points.py")])
prop("C34", "Hierarchical ray sampling and voxel feature grids behave like their definitions",
     "For every coarse sampling and weights, refined ray depths are sorted, lie within the ray's range and include the coarse ones when requested; feature grids (full, CP and VM factorised) return at each grid node its stored or factor-product value, interpolate multilinearly between nodes, and changing the resolution or cropping keeps values; positional encodings and autodecoder lookups return exactly the value for their key; a scaffold marks and filters exactly the empty space; options that move rays to camera coordinates give what moving the rays by hand gives.",
     ["inputs", "configurations"], "all small grids x node and midpoint positions x configurations; all weight vectors over a small alphabet",
     "Tests check shapes and one or two values.",
     ["pytorch3d/implicitron/models/renderer/ray_point_refiner.py", "pytorch3d/implicitron/models/implicit_function/voxel_grid.py", "pytorch3d/implicitron/models/global_encoder/autodecoder.py" , "pytorch3d/renderer/implicit/harmonic_embedding.py"],
     [("RayPointRefiner", "ray_point_refiner.py"), ("VoxelGridBase", "voxel_grid.py"), ("Autodecoder", "implicitron/models/global_encoder/autodecoder.py"), ("HarmonicEmbedding", "renderer/implicit/harmonic_embedding.py")])
prop("C35", "Resuming training always picks the newest complete checkpoint",
     "For every history of saving, purging and interrupting at any point, finding the last checkpoint returns the newest epoch that was completely written, loading it gives back the model weights, statistics and optimizer state of that epoch, and purging keeps exactly the requested most recent ones.",
     ["histories", "crash_points"], "all short histories of save/purge/load with an interruption after every file operation",
     "Tests run uninterrupted.",
     ["pytorch3d/implicitron/tools/model_io.py", "projects/implicitron_trainer/impl/training_loop.py"],
     [("save_model, find_last_checkpoint, load_checkpoint, purge_epoch", "implicitron/tools/model_io.py")])
prop("C36", "Features pooled from source views come from the right place in the right views",
     "For every set of source views, 3D points in front of them, sequence names, feature maps of any size and masks, the feature sampled for a point in a view is the view's map interpolated at the point's projection, and zero in views of another sequence; the aggregated feature is the mean, standard deviation or maximum over exactly the views that are unmasked and allowed (the target view left out when asked), weighted by viewing angle when asked, and zero where no view contributes; features aligned to mesh vertices or points are the maps' values at their position, in the padded or packed order asked for.",
     ["inputs", "configurations"], "all assignments of few views and batch elements to sequences x masks x aggregators x options, at a lattice of points",
     "Tests use one random set of views and compare shapes and a few aggregations; masked views, several sequences and the choice of reductions only matter in combination.",
     ["pytorch3d/implicitron/models/view_pooler/view_sampler.py", "pytorch3d/implicitron/models/view_pooler/feature_aggregator.py", "pytorch3d/implicitron/models/view_pooler/view_pooler.py", "pytorch3d/ops/vert_align.py", "pytorch3d/renderer/utils.py"],
     [("ViewSampler, project_points_and_sample", "view_pooler/view_sampler.py"), ("FeatureAggregatorBase and its implementations", "view_pooler/feature_aggregator.py"), ("vert_align", "ops/vert_align.py"), ("ndc_grid_sample", "renderer/utils.py")])
prop("C37", "Rendering losses and evaluation metrics count exactly the valid pixels",
     "For every prediction, ground truth, crop and foreground mask, image size, channel count and ray bundle (grid, ray lists, or packed from several cameras in any order), the colour errors, PSNR, IoU, cross entropy and depth errors equal their definition over exactly the valid pixels of each image, optional ground truths add or leave out exactly their own metrics, previous stages are reported under their own names, gradients stay finite, inputs are not changed, and summaries average each metric over exactly the batches of their split and number of source views. The evaluator shows the model everything but the image, depth map, foreground and crop mask of the target, and reports the summary of all its batches.",
     ["inputs", "configurations"], "all masks of small images x options; all subsets of optional inputs x bundle layouts; all assignments of batches to splits",
     "Tests compare good and bad predictions or random images; masks, packed bundles and options are not combined.",
     ["pytorch3d/implicitron/tools/metric_utils.py", "pytorch3d/implicitron/models/metrics.py", "pytorch3d/implicitron/evaluation/evaluate_new_view_synthesis.py", "pytorch3d/implicitron/evaluation/evaluator.py", "pytorch3d/implicitron/models/utils.py", "pytorch3d/implicitron/tools/image_utils.py"],
     [("eval_depth, calc_psnr, calc_bce, iou, rgb_l1", "implicitron/tools/metric_utils.py"), ("ViewMetrics", "implicitron/models/metrics.py"), ("eval_batch, summarize_nvs_eval_results", "implicitron/evaluation/evaluate_new_view_synthesis.py")])

prop("C38", "Splatting composes each pixel from its neighbours in the right place and order",
     "For every image size, number of layers, arrangement of depths, camera and position of the points within their pixels, the splatter blender gives each pixel the colours of itself and its eight neighbours (the one in that very direction), weighted by a kernel of their true distance, separated into those in front of, on and behind the surface of the pixel, each normalised where its weights exceed one and composed front to back over the background; empty layers and their contents have no effect, and the shader does so for every mesh, batch and size it is called with in turn.",
     ["inputs", "configurations", "histories of calls"], "all small images of layer lists; all pairs of neighbours in all directions",
     "Tests check the stages one by one with one layer or equal depths, and the composition of the stages only against stored GPU images with one face per pixel.",
     ["pytorch3d/renderer/splatter_blend.py", "pytorch3d/renderer/mesh/shader.py"],
     [("SplatterBlender", "renderer/splatter_blend.py"), ("SplatterPhongShader", "renderer/mesh/shader.py")])

prop("C39", "Local geometry is right at every scale",
     "For every symmetric 3x3 matrix of any magnitude the eigen-decomposition, its ordering and gradients are those of the matrix; the normals and local frames of every point cloud are the principal directions of each point's neighbours, with the sign of the majority, independent of scale, position, batch and of how the cloud is stored, and are what is assigned to it; generated spheres and tori are closed, outward oriented surfaces of the stated shape, and checkerboards are unit squares of alternating colors; fitted circles and planes are the least squares ones at any scale, and points and camera paths generated from them start, turn, face, and are offset as stated.",
     ["inputs", "configurations"], "all matrices over an alphabet at all scales; all choices of points; all options of the camera paths",
     "Tests use random matrices of unit scale and random clouds of one density; dense clouds, small scales and batches of three are not covered.",
     ["pytorch3d/common/workaround/symeig3x3.py", "pytorch3d/ops/points_normals.py", "pytorch3d/structures/pointclouds.py", "pytorch3d/utils/ico_sphere.py", "pytorch3d/utils/torus.py", "pytorch3d/utils/checkerboard.py", "pytorch3d/implicitron/tools/circle_fitting.py", "pytorch3d/implicitron/tools/eval_video_trajectory.py"],
     [("symeig3x3", "common/workaround/symeig3x3.py"), ("estimate_pointcloud_local_coord_frames", "ops/points_normals.py"), ("fit_circle_in_3d", "implicitron/tools/circle_fitting.py"), ("generate_eval_video_cameras", "implicitron/tools/eval_video_trajectory.py")])

prop("C40", "RGB-D images, point clouds and sparse rays turn into each other correctly",
     "For every depth map, mask, colour image size and camera, the point cloud of an RGB-D image has exactly the valid pixels at the points that the camera sees in them at that depth, with their colours; rendering a point cloud composes, per pixel, the points within the radius front to back over the background for every image shape, batch of padded clouds and number of points per pixel; samples of sparse rays, packed or padded, land in the image of their own camera and nowhere else; depth clean-up keeps exactly the points whose distance to the depth of their own pixel is within its spread; and camera alignments, jitters, depth bounds and overlaps agree with the transformed points.",
     ["inputs", "configurations"], "all small depth maps and masks; all choices of points; all ray counts per camera",
     "Tests render random views only through the depth-based model or not at all; packed bundles, padded clouds and non-square images are not covered.",
     ["pytorch3d/implicitron/tools/point_cloud_utils.py", "pytorch3d/implicitron/tools/rasterize_mc.py", "pytorch3d/implicitron/tools/depth_cleanup.py", "pytorch3d/implicitron/tools/camera_utils.py", "pytorch3d/implicitron/models/model_dbir.py"],
     [("get_rgbd_point_cloud, render_point_cloud_pytorch3d", "implicitron/tools/point_cloud_utils.py"), ("rasterize_sparse_ray_bundle", "implicitron/tools/rasterize_mc.py"), ("cleanup_eval_depth", "implicitron/tools/depth_cleanup.py"), ("apply_camera_alignment, volumetric_camera_overlaps", "implicitron/tools/camera_utils.py"), ("ModelDBIR", "implicitron/models/model_dbir.py")])

prop("C41", "pulsar images are the documented composition of the spheres in view",
     "For every set of spheres in any order, softness, opacities, camera (perspective or orthographic, either handedness, posed, with principal point offset, any rotation encoding and image shape), number of channels and number of spheres per pixel, a pulsar image is the softmax composition, over the background, of exactly the spheres whose silhouette covers the pixel and whose nearest point lies between the near and far plane, with the documented closeness and depth weights; the forward information names the nearest spheres in order with their depths; gradients of positions, radii, opacities, colours and camera are those of that formula; elements of a batch, and all operations in any history of one renderer, give what they give alone; and PulsarPointsRenderer draws points where the cameras of PyTorch3D see them, without changing the cameras.",
     ["inputs", "configurations", "histories"], "all choices of spheres and cameras; all histories of a renderer to a depth",
     "Tests render reference images of one scene each on CUDA devices, mostly without posed orthographic cameras, offsets, batches or gradients.",
     ["pytorch3d/csrc/pulsar", "pytorch3d/renderer/points/pulsar", "pytorch3d/renderer/camera_conversions.py"],
     [("Renderer", "renderer/points/pulsar/renderer.py"), ("PulsarPointsRenderer", "renderer/points/pulsar/unified.py"), ("draw", "csrc/pulsar/include/renderer.draw.device.h"), ("get_screen_area", "csrc/pulsar/include/renderer.get_screen_area.device.h"), ("pytorch renderer", "csrc/pulsar/pytorch/renderer.cpp")])

prop("C42", "Implicitron's fields, renderers and models render each ray from its field",
     "For every layer layout, code, pooled features and shape of ray bundle, an Implicitron field (NeRF, NeRFormer, SRN and its hypernetwork, IDR) returns for every point what its documented network gives for that point's encoding, viewing direction, code and features, whatever else is in the batch and whatever was bound and called before; cone frusta are approximated by the Gaussian of exactly their mean and variance; the multi-pass renderer emission-absorption-marches each pass and resamples from its weights; the signed-distance renderer returns for every ray the first surface point in front of the camera, its normal and colour and a mask that says whether it hits, with the documented gradients and eikonal points; the LSTM renderer marches the documented steps and its result is differentiable; and GenericModel and OverfitModel render and train with the same images, losses and codes for every chunking, number of passes, kind of fine and coarse field, and number of target and source views, where each view is rendered as it is alone.",
     ["inputs", "configurations", "histories"], "all layouts, switches, scenes and chunkings of the bounds; all histories of bindings and forward calls to a depth",
     "Tests build most models and call them once, mostly without comparing the result; no test renders signed-distance images of several views, rays that all miss, coarse functions of another class, or codes with every field.",
     ["pytorch3d/implicitron/models"],
     [("GenericModel", "implicitron/models/generic_model.py"), ("OverfitModel", "implicitron/models/overfit_model.py"), ("MLPWithInputSkips", "implicitron/models/implicit_function/decoding_functions.py"), ("SRNHyperNetImplicitFunction", "implicitron/models/implicit_function/scene_representation_networks.py"), ("SignedDistanceFunctionRenderer", "implicitron/models/renderer/sdf_renderer.py"), ("RayTracing", "implicitron/models/renderer/ray_tracing.py"), ("LSTMRenderer", "implicitron/models/renderer/lstm_renderer.py"), ("MultiPassEmissionAbsorptionRenderer", "implicitron/models/renderer/multipass_ea.py")])
prop("C43", "Data sets and providers serve exactly the models, frames and splits on disk",
     "For every directory tree, set list, annotation and request, the ShapeNetCore and R2N2 data sets list exactly the models of the requested categories, splits and views, serve each with its own mesh, texture, image, camera and voxel grid (binvox files are decoded exactly or refused), render the models that were asked for and collate any of them into a batch; the single-scene, rendered-mesh, SQL and CO3D (version 1 and 2) providers put every frame into exactly the train, validation and test sets its annotation names, with its own image, mask, camera and known/unseen kind, with the requested known frames added and with evaluation batches that name the same frames, for one category or several and with every switch; and a data source makes its data sets, loaders and training cameras once and from those sets.",
     ["inputs", "configurations"], "all trees, labellings, lists, requests and switches of the bounds",
     "Tests load one fixture of each kind with one or two settings; no test collates models without textures, adds known frames to a single scene with masks, or joins several categories with test_on_train.",
     ["pytorch3d/datasets", "pytorch3d/implicitron/dataset"],
     [("ShapeNetBase", "datasets/shapenet_base.py"), ("R2N2", "datasets/r2n2/r2n2.py"), ("collate_batched_meshes", "datasets/utils.py"), ("DatasetMap", "implicitron/dataset/dataset_map_provider.py"), ("SingleSceneDatasetMapProviderBase", "implicitron/dataset/single_sequence_dataset.py"), ("JsonIndexDatasetMapProvider", "implicitron/dataset/json_index_dataset_map_provider.py"), ("JsonIndexDatasetMapProviderV2", "implicitron/dataset/json_index_dataset_map_provider_v2.py"), ("RenderedMeshDatasetMapProvider", "implicitron/dataset/rendered_mesh_dataset_map_provider.py"), ("SqlIndexDatasetMapProvider", "implicitron/dataset/sql_dataset_provider.py")])
prop("C44", "NeRF renders an image the same however its rays are cached and chunked",
     "For every camera, image size, chunk size and history of caching, training and evaluation, the NeRF project (projects/nerf) samples, for every pixel of an image, exactly the ray through it with unit direction and the documented depths: each ray is in exactly one chunk, rays from the cache are those computed anew, training draws the drawn subset of them, and depths are only perturbed within their own intervals and only in the mode that asks for it. Importance samples follow the inverse distribution of the coarse weights and carry no gradient; the field and the ray marcher compute the documented functions; the renderer's coarse and fine images are their composition, independent of chunking, caching and visualisation, compared with the colours the ground truth image has at the same rays; its statistics are the averages of each epoch for every history of updates; its data sets hold each frame of the split with its own image and camera; and evaluation cameras follow the documented curves.",
     ["inputs", "configurations", "histories"], "all sequences of cache/mode/query operations to a depth, all chunk sizes, permutations and offsets of small images, all weights and densities on lattices",
     "Tests compare one cached with one uncached pass in evaluation mode; none caches in training mode, renders batches or chunks, or looks at rendered images, ground truth colours or statistics.",
     ["projects/nerf/nerf/raysampler.py", "projects/nerf/nerf/nerf_renderer.py", "projects/nerf/nerf/implicit_function.py", "projects/nerf/nerf/raymarcher.py", "projects/nerf/nerf/utils.py", "projects/nerf/nerf/stats.py", "projects/nerf/nerf/dataset.py", "projects/nerf/nerf/eval_video_utils.py"],
     [("NeRFRaysampler", "_ray_cache, chunks"), ("ProbabilisticRaysampler", "raysampler.py"), ("RadianceFieldRenderer", "forward, _process_ray_chunk"), ("Stats", "stats.py")])

prop("C45", "Figures show exactly the scene they are given, and drawing one changes nothing",
     "For every dictionary of subplots of meshes (with any textures, unused vertices and whatever was computed before), point clouds, cameras and ray bundles of every kind, plot_scene draws each struct in its own subplot, under its name, inside the axes: the triangles of a mesh with the colours of its vertices or faces, the points of a cloud (or distinct ones up to the limit) with their own colours, each camera's wire frame where that camera stands, one line from the nearest to the farthest point of each ray (or of distinct rays up to the limit) and its points, and nothing else; subplots are laid out row by row with their titles. Viewpoint cameras look at each subplot from their position, along their axis and upright, or are ignored with a warning if their number is wrong. plot_batch_individually puts the i-th element of every batch into the i-th subplot, single structs into all of them or only the first, and refuses batches and titles of other sizes. Texture images show the map with marks at the documented places of the vertices. Nothing that is drawn changes.",
     ["inputs", "configurations"], "all small batches of structs, textures, histories, limits, layouts, viewpoints and lists of batches",
     "The tests only call the functions and never look at the figures they return.",
     ["pytorch3d/vis/plotly_vis.py", "pytorch3d/vis/texture_vis.py", "pytorch3d/renderer/mesh/textures.py", "pytorch3d/renderer/camera_utils.py"],
     [("plot_scene", "plotly_vis.py"), ("plot_batch_individually", "plotly_vis.py"), ("_add_mesh_trace, _add_ray_bundle_trace", "plotly_vis.py"), ("TexturesUV.centers_for_image", "textures.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P))
