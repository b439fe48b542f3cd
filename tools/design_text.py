# id: (what decides it, why it goes beyond the tests, quick cost)
TEXT = {
"C01": ("Explicit-state exploration of operation histories on real `Meshes` objects. Model: a list of (verts, faces) per mesh; after every operation every view (list, padded, packed, index maps, edges, areas, normals, boxes, Laplacian) of every object of the history is recomputed from the model and compared. Accessors are operations too, because they fill caches.",
        "the caches of `Meshes` make the result depend on which view was read before which operation; the tests read one or two orders, the check all of them up to the depth.", "~45 s"),
"C02": ("Same exploration for `Pointclouds`, the model being one list of (point, normal, feature) rows per cloud; also checks that attributes stay attached to their point.", "as C01; every form of construction is combined with every operation.", "~40 s"),
"C03": ("`Volumes`/`VolumeLocator` against scalar float64 formulas of voxel centres, for all sizes and conventions, plus operation histories against a list of grids.", "tests use a few cubic grids; one-voxel sides, ragged batches and `align_corners=False` were wrong.", "~25 s"),
"C04": ("Histories of operations on textured meshes. Model: a function (mesh, face, barycentric) to colour written out per texture kind; after every history each colour is sampled through `sample_textures` and compared.", "tests sample one operation at a time on one texture kind.", "~10 s"),
"C05": ("Every multiset of small rectangles is packed by the real code and the placement checked geometrically (inside, disjoint); merged maps are checked texel by texel through `Join`ed `TexturesUV`.", "the packer is a stateful heuristic; a failure needs a particular size sequence.", "~13 s"),
"C06": ("Histories over `Transform3d` constructors, composition, inverse, indexing, stacking against 4x4 float64 matrices; every object of the history is checked after every operation (no aliasing).", "the tests check single compositions; lazily kept factor lists make nested ones differ.", "~40 s"),
"C07": ("All conversion paths up to a length over a complete set of axes x angles (identity, half turns, near ones) against float64 matrices; gradients checked for finiteness; each rotation alone and in the company of all others.", "branch boundaries (half turns, small angles) are hit exactly and in batches.", "~15 s"),
"C08": ("Every camera model x parameter layout x query against the documented equations in float64; every ordered pair of queries on one object (the cameras keep R/T given in the call).", "tests use one or two layouts per camera.", "~40 s"),
"C09": ("Histories on batches of cameras, lights and materials; model: a list of dictionaries, one per element.", "broadcast attributes share memory; faults need indexing/cloning/writing in sequence.", "~28 s"),
"C10": ("Every scene of a lattice of triangles is rasterised; a brute-force float64 rasteriser (own code) gives, per pixel, the set of covering faces, depth, barycentrics and distances; pixels within 1e-4 of a tie are compared as sets. Thread counts are enumerated too; gradients against autograd of the reference.", "naive/coarse agreement tests share their mistakes; the reference is independent.", "~30 s"),
"C11": ("Every triangle x vertex depths around the plane; reference: clipping polygons and ray/triangle intersection in float64. Batches mix all clip cases because clipped faces are renumbered.", "conversion back to original faces depends on the mix of cases in the batch.", "~30 s"),
"C12": ("As C10 for points.", "complete point sets incl. ties, non-square images, per-point radii.", "~10 s"),
"C13": ("Every pattern of fragments (empty slot anywhere, opacity 0/½/1, depth order) of a pixel; formulas in float64, gradients by autograd of the formula.", "gradients at fully opaque points were wrong and are outside the tests' data.", "~5 s"),
"C14": ("Lighting formulas as scalar float64 code per pixel, evaluated for every batch layout of meshes, lights, materials, cameras.", "batch broadcasting mistakes only show when every element differs.", "~15 s"),
"C15": ("All point sets over a lattice, brute force with ties compared as sets; padding holds points that would win.", "complete spaces with ties, all lengths, all K and norms; template specialisations by dimension and K.", "~20 s"),
"C16": ("Every list of points over a lattice; each pick is checked for being a maximiser (ties free).", "ties, empty clouds, K = 0, per-cloud K.", "~1 s"),
"C17": ("Every sequence of counts and trailing shape; edge lists enumerated; sums in float64.", "empty elements at every place; every edge list.", "~10 s"),
"C18": ("Every lattice position around every grid; definition of the splat written out per voxel; gradients as well.", "border shell and masks.", "~10 s"),
"C19": ("Every in/out/at-level pattern of small grids; closedness, orientation and crossing set computed from the pattern; C++ and Python compared as sets of triangles' surface.", "all 256 cell cases next to all neighbours.", "~60 s"),
"C20": ("Every occupancy pattern; the boundary quads are computed directly and compared as sets with multiplicity.", "all patterns, alignments, thresholds.", "~13 s"),
"C21": ("All small meshes; identity of every vertex by corner/edge; prepared subdivisions reused in all orders.", "every connectivity incl. repeated faces and shared edges.", "~10 s"),
"C22": ("All small meshes in all small batches; each loss from its definition in Python loops, gradients of vertices included.", "non-manifold edges and empty meshes at every place of the batch.", "~12 s"),
"C23": ("All triangles/segments x points against exact closest points in float64; every batch layout; chamfer against its definition for the complete option product.", "the option product is ~10^4, the tests cover a few.", "~14 s"),
"C24": ("Exact volume by clipping polyhedra in float64/rationals; all relations of intervals per axis, orderings, nearly coincident faces.", "the algorithm is a case analysis over coplanarity thresholds.", "~8 s"),
"C25": ("The random generator is replaced by one that hands out every value of a lattice, so every outcome of a sampler is enumerated and compared with exact geometry; thread counts enumerated for the C++ sampler, with guard rows.", "tests are statistical.", "~3 s"),
"C26": ("Rays against camera equations in float64; all outcomes of the random draws (scripted generator); ray integrals written out.", "masks, ragged sampling, packed bundles.", "~20 s"),
"C27": ("Every small mesh x format x option is written, re-read and compared to the written precision; the saved object is compared with itself before.", "the product of formats and options is larger than the tests' list.", "~8 s"),
"C28": ("An independent generator writes every legal layout of a file and the expected content is known by construction; every truncation must raise and terminate.", "parsers have many spellings; tests have a few dozen files.", "~60 s"),
"C29": ("Class trees from a grammar x overrides; model: dictionaries written out.", "names that are prefixes of each other, inheritance and hooks in combination.", "~35 s"),
"C30": ("Every random draw is a branch point of a depth-first exploration (the generator is replaced by a controlled one): all batches a sampler can ever deliver are checked.", "tests see one random run.", "~20 s"),
"C31": ("Every small table x filters on disk, JSON and SQL, against a relational model.", "filters interact; lookups after filters/joins/subsets.", "~40 s"),
"C32": ("All histories over the Stats operations against lists of logged values.", "order of epochs, saves, added variables.", "~20 s"),
"C33": ("Optimality over a finite group / closed form; recovery for every transform of a lattice; ICP checked step by step.", "weights, ragged batches, reflections in combination.", "~16 s"),
"C34": ("Per-node definitions of the grids; histories of resolution changes, crops, saves; refiner outputs against exact quantiles.", "histories (crop, resize, save, load) are not tested at all.", "~38 s"),
"C35": ("Explicit-state exploration of crash points: every file operation is observed via an audit hook, each state of the folder in between (plus torn variants of files written in place) is a crash state and is resumed by the real code.", "no test crashes.", "~30 s"),
"C36": ("Every assignment of views and batch elements to sequences with every mask pattern; projection, map look-up and reductions written out as scalar float64 code.", "the combination of masks, sequences, target exclusion and reductions; pooling by maximum never worked.", "~10 s"),
"C37": ("Every metric recomputed pixel by pixel in Python for every mask pattern, option and bundle layout.", "packed bundles, masks and options in combination; bundles that skip a camera failed.", "~18 s"),
"C38": ("A pixel by pixel evaluation of the splatting rule in Python for every small image of layer lists.", "depth orders between neighbours in every direction; the occlusion of a neighbour was looked up in the transposed direction.", "~6 s"),
"C39": ("eigh in float64, brute-force neighbourhoods, combinatorial surface checks and closed-form circles and paths.", "scales and densities far from 1 (normals of a unit sphere with 100000 points were random), exactly equal spacings, batches of 3.", "~20 s"),
"C40": ("Every depth map, choice of points and ray bundle evaluated with pinhole geometry and front-to-back composition written out in Python.", "packed bundles of rays drew their padding; clean-up of depths failed on images that are not square; non-square images in general.", "~12 s"),
"C41": ("Every ordered choice of spheres rendered under every camera and compared, pixel by pixel, with the image, forward information and gradients of a float64 reference of the composition; all histories of a renderer and batches against the operations alone; the unified renderer against the NDC projection of its cameras.", "orthographic images shifted by half a pixel; gradients of orthographic images of rotated cameras and of offset principal points; opacities of the first batch element used for all; spheres beside the camera cut off; the unified renderer wrong for images that are not square and vertical principal points, changing the fields of view of the cameras, and failing for one camera with several clouds.", "~30 s"),
"C42": ("Every layout of the networks compared, value by value, with an independent evaluation of the documented network on the module's own weights; all histories of bindings and calls; every density profile through the passes; exact spheres rendered by the signed-distance renderer under every chunking, object mask and camera; whole models over every chunk size, number of passes, views and kind of fields against the fields rendered alone.", "the activation after the last layer swapped with the hidden one; the backward pass of LSTM renders; hypernetworks of more than one output; signed-distance images of several views and of rays that all miss; OverfitModel with IDR fields, coarse functions of another class, and global codes; the missing autodecoder norm of models with codes.", "~60 s"),
"C43": ("Every directory tree, split file, annotation labelling and request of the bounds is written to a scratch directory and loaded; what is served is compared with the enumeration's own account of what was written (file contents name the model, view or frame).", "batches of models without textures; masks of known frames added to the validation and test sets of a single scene; several categories joined with test_on_train; the training cameras of a version 2 scene.", "~30 s"),
"C44": ("Every sequence of caching, mode switches and queries on the real ray sampler with its random draws replaced by enumerated ones, against rays computed in float64 from the camera; every chunk size; the renderer's images against a float64 evaluation of the documented networks on the module's own weights; every history of the statistics against the list of what was reported.", "rays cached in training mode; chunks of a batch of cameras; ground truth colours misaligned by up to half a pixel, and black outside the central square of images that are not square.", "~40 s"),
"C45": ("Every small dictionary of structs is drawn by the real functions and the figure object is read back: faces, points, colours, wire frames, ray lines, axes, scenes and viewpoints are compared with numbers computed from the inputs in float64; every input is compared with a copy taken before.", "plotting a mesh moved its unused vertices and scaled its colours in place; single structs were left out with extend_struct=False; ray plots started with an uninitialised point.", "~25 s"),
}
