"""Writes properties.jsonl and MANIFEST.json (run by hand: python3 harness/mkmeta.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks  # noqa: E402

CPP = "C++/DifferentiableRenderer.h"
PYX = "deodr/differentiable_renderer_cython.pyx"
REN = "deodr/differentiable_renderer.py"
MESH = "deodr/triangulated_mesh.py"
FIT = "deodr/mesh_fitter.py"
LAP = "deodr/laplacian_rigid_energy.py"
TOOLS = "deodr/tools.py"
GOLD = "The stable tests compare a few golden images and loss curves of one hand, one duck and one triangle soup"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], technique, note
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


TV = "TLA+ specification of the pipeline, TLC trace validation of recorded renderings"
TVN = ("Every recorded rendering is replayed action by action by TLC in exact rational arithmetic; assumes the Java "
       "evaluation of spec/Rat.tla, and leaves comparisons closer than 1e-9 undecided on generic inputs.")

p("R01", "Faces cover exactly the pixels inside them, without gap nor overlap",
  "A front-facing face covers exactly the pixels whose centre lies inside its projection, wherever its vertices are with respect to the image. "
  "With strict edges a pixel centre exactly on an edge shared by two faces belongs to exactly one of them, so that a tiling of faces covers each pixel once; without strict edges it belongs to both.",
  ["inputs"], "every set of faces and vertex positions, image size and option, including positions exactly on pixel centres, horizontal and vertical edges, slivers and far away vertices",
  GOLD + "; positions exactly on pixel centres and faces that extend far outside the image do not occur there.",
  [CPP, PYX], [("get_triangle_stencil_equations, get_xrange", CPP), ("Edge_equ3, sort3, clamp_to_short", CPP)],
  "TLA+ coverage model enumerated with TLC on a lattice, and trace validation of renderings", TVN)
p("R02", "The nearest face is what is seen, whatever the order of the faces",
  "At each pixel the image and the depth map show the nearest of the drawn faces that cover it; its depth is recorded exactly there and nowhere else. "
  "When faces are at exactly the same depth the first one in face order is kept.",
  ["inputs"], "every set of overlapping or intersecting faces in every order, with linear or perspective depth",
  GOLD + ": a wrong depth comparison that leaves these images unchanged is not seen.",
  [CPP], [("z-buffer test of the triangle renderers", CPP)], TV, TVN)
p("R03", "Vertex attributes are interpolated exactly at the pixel centres",
  "In the inside of a drawn face the colour and the depth of a pixel are the linear interpolation of those of its vertices evaluated at the pixel centre, or the perspective-correct one when it is asked for, for any number of channels. "
  "Pixel centres are at integer coordinates or at integer coordinates plus one half according to the option.",
  ["inputs", "configurations"], "every face, colour, depth, number of channels, image size, perspective option and pixel centre convention",
  GOLD + " with 3 channels; perspective-correct interpolation is covered by no stable test.",
  [CPP, REN], [("xy1_to_A, xy1_to_Z, perspective_correct", CPP), ("integer_pixel_centers", REN)], TV, TVN)
p("R04", "Textured faces sample the texture bilinearly and modulate it with the shading",
  "A pixel of a textured face has the bilinear interpolation of the four texels around its interpolated texture coordinates, the borders being extended outwards, multiplied by the interpolated shading. "
  "It depends on no other texel, for every size of texture, number of channels and perspective option.",
  ["inputs"], "every texture size (including 1 texel), texture coordinate inside or outside of the texture, shading, number of channels",
  "One golden image of a textured duck and one texture coordinate test.",
  [CPP], [("bilinear_sample, render_part_textured_gouraud", CPP)], TV, TVN)
p("R05", "Only front-facing faces in front of the camera are drawn",
  "With back-face culling only the faces whose orientation matches the clockwise option are drawn, without it both orientations are; edges are only antialiased on front faces. "
  "A face without area, or with a vertex behind the camera, is never drawn and disturbs nothing.",
  ["inputs", "configurations"], "every mix of orientations, degenerate faces, negative depths and options",
  GOLD + ", all with vertices in front of the camera and default orientation.",
  [CPP], [("signedArea, backface_culling, clockwise", CPP)], TV, TVN)
p("R06", "Pixels that nothing covers keep the background, and nothing else is written",
  "A pixel that no face or antialiased edge reaches has the background colour or the pixel of the background image, an infinite depth and, in error mode, its distance to the observation. "
  "Faces partly or entirely outside of the image are clipped, for every image size down to one pixel: only the image, depth and error buffers are written, inside their bounds.",
  ["inputs"], "every image size, off-screen position, background kind and buffer neighbourhood",
  GOLD + ", whose objects are inside the image.",
  [CPP, PYX, REN], [("clipping of y_begin, y_end, x_begin, x_end", CPP), ("background handling of Scene2D.render", REN)], TV, TVN + " Writes out of bounds are observed on canary words around the buffers.")
p("R07", "Silhouette edges are blended over exactly the antialiasing width, nearest last",
  "With a positive antialiasing width, each flagged edge of a front face blends its interpolated colour into the pixels at a distance of less than the width outside of the edge, with an opacity that decreases linearly from one on the edge to zero, where the edge is in front of what is drawn. "
  "Edges are blended from the farthest face to the nearest one; edges that are not flagged, or a width of zero, change nothing.",
  ["inputs", "configurations"], "every edge direction, width, flag pattern, order of faces, textured or not, perspective or not",
  GOLD + " with a width of one.",
  [CPP], [("get_edge_stencil_equations, rasterize_edge_*", CPP), ("sum_depth ordering of renderScene", CPP)], TV, TVN)
p("R08", "Error-mode rendering returns the antialiased squared distance to the observation",
  "Rendering against an observed image returns, besides the image without antialiasing and the depth map, the map of the squared distances summed over the channels between rendered and observed pixels. "
  "Flagged edges blend, with the opacities of antialiasing, the squared distance between the edge's own colour and the observation into the map, leaving the image as it is.",
  ["inputs", "configurations"], "every scene, observation and width",
  "Only one fitting curve of a triangle soup exercises it.",
  [CPP, REN], [("rasterize_edge_*_error, renderScene", CPP), ("Scene2D.render_error", REN)], TV, TVN)
GN = ("Directional derivatives in random directions are computed exactly by forward differentiation of the specification; "
      "scenes with comparisons closer than 1e-9 are not compared.")
p("G01", "The gradient of the inside of faces is the exact derivative of the image",
  "Without antialiasing, the backward pass of a rendering returns for vertex positions, colours, shading, texture coordinates and texture the exact derivative, through every covered pixel, of the scalar product of the image with the given adjoint. "
  "Faces that are not visible get no gradient.",
  ["inputs"], "every scene rendered without perspective and with back-face culling, every adjoint image",
  "The stable tests compare loss curves of three fittings; a wrong gradient that still descends, or of an input they do not optimise, passes.",
  [CPP, REN], [("rasterize_triangle_*_B, render_part_*_B, bilinear_sample_B", CPP), ("Scene2D.render_backward", REN)],
  "forward differentiation of the TLA+ specification, trace validation of recorded gradients", GN)
p("G02", "The gradient of antialiased silhouettes is the exact derivative of the image",
  "With antialiasing, the backward pass returns the exact derivative of the scalar product of the image with the given adjoint with respect to vertex positions, colours, shading, texture coordinates and texture. "
  "It goes through the position, opacity and colour of every blended edge and through what is visible behind it.",
  ["inputs"], "every scene rendered without perspective and with back-face culling, every width and adjoint",
  "Loss curves of three fittings only.",
  [CPP, REN], [("rasterize_edge_*_B, get_edge_stencil_equations_B", CPP)],
  "forward differentiation of the TLA+ specification, trace validation of recorded gradients", GN)
p("G03", "The gradient of the error map is its exact derivative",
  "In error mode, the backward pass returns the exact derivative of the scalar product of the error map with the given adjoint with respect to vertex positions, colours, shading, texture coordinates and texture, with or without antialiasing.",
  ["inputs"], "every scene rendered without perspective and with back-face culling, every observation, width and adjoint",
  "One loss curve of a triangle soup.",
  [CPP, REN], [("rasterize_edge_*_error_B, renderScene_B", CPP), ("Scene2D.render_error_backward", REN)],
  "forward differentiation of the TLA+ specification, trace validation of recorded gradients",
  GN + " Known finding KF1 is recognised by its exact values only.")
p("G04", "Renderings are pure; gradients add up until they are cleared",
  "After any history of renderings, backward passes and changes of its arrays, a scene renders as a new one with the same arrays, and neither renderings nor backward passes change the scene's inputs or the caller's images and masks, nor, when copies are asked for, adjoints or arrays returned earlier. "
  "Each backward pass adds to the gradient arrays its contribution for the last rendering, and one that does not match the kind of the last rendering is refused; clearing sets all of them to zero.",
  ["histories"], "every sequence of renderings, error renderings, clearings and backward passes, with and without copies",
  "Tests call render and backward once per iteration in a fixed order.",
  [REN, CPP, PYX], [("Scene2D.clear_gradients, render, render_backward, render_error, render_error_backward, make_copies", REN)],
  "TLA+ lifecycle model enumerated with TLC, histories replayed into the code", "All histories up to the model's depth; contributions compared bit for bit or within 1e-12.")
p("V01", "Inconsistent scenes are rejected with an exception before any memory is touched",
  "A scene or adjoint whose arrays have inconsistent sizes, shapes or indices (faces pointing to missing vertices or texture coordinates, wrong number of channels, missing texture) makes rendering and backward raise an exception, leaving its buffers as they are; a consistent one is accepted. "
  "The process never crashes.",
  ["inputs"], "every combination of valid and invalid sizes and indices",
  "Tests only render valid scenes.",
  [CPP, PYX, REN], [("checkSceneValid", CPP), ("asserts of renderScene, renderSceneB", PYX)],
  "TLA+ model of scene validity enumerated with TLC, each scene replayed into the code", "One mutation or pairs of mutations of a valid scene, exhaustively over the model's mutations.")
p("C01", "Points project through extrinsics, division by depth, distortion, intrinsics",
  "The projection of a point is its world coordinates transformed by the extrinsic matrix, divided by its depth, distorted by the radial and tangential coefficients when there are any, and mapped by the intrinsic matrix; the depth is the third camera coordinate. "
  "A point can be projected alone or among others with the same result.",
  ["inputs"], "every intrinsic and extrinsic matrix, distortion and set of points",
  "Golden images use one camera without distortion.",
  [REN], [("Camera.project_points, world_to_camera", REN)],
  "TLA+ camera specification in exact arithmetic, trace validation", "Exact rational evaluation, tolerance 1e-9.")
p("C02", "The backward pass of the projection is its exact adjoint",
  "For every camera, with or without distortion, the backward pass of the projection maps the adjoints of the projected points and of their depths to the exact derivative with respect to the points.",
  ["inputs"], "every camera with rotation, skew and distortion, every point and adjoint",
  "Fitting tests use an axis-aligned camera without distortion nor skew.",
  [REN], [("Camera.project_points_backward", REN)],
  "forward differentiation of the TLA+ camera specification, trace validation", "Exact derivative of the specification, tolerance 1e-9.")
p("C03", "Cameras report and build a consistent geometry",
  "A camera's centre is the point that its extrinsics map to the origin, mapping camera points to the world inverts the world to camera mapping, and its fields of view subtend the image borders. "
  "A camera built from a field of view, position and rotation has that centre, fields of view, rotation and image centre, and the default camera of an object sees all of its vertices, in front of it and inside the image.",
  ["inputs"], "every rotation, centre, field of view and image size, every set of vertices",
  "Golden images only check one default camera.",
  [REN], [("Camera.get_center, camera_to_world_mtx_4x4, get_fov, PerspectiveCamera, default_camera", REN)],
  "TLA+ camera specification in exact arithmetic, trace validation", "Exact arithmetic up to recorded tangents of the angles, tolerance 1e-9.")
p("M01", "The topology computed from the faces is the mesh's topology",
  "For every list of faces the mesh's edges are each listed once with their two vertices, each face knows its three edges and each vertex its neighbours and faces exactly. "
  "The mesh is reported closed if and only if every edge has two faces, and manifold if and only if no edge has more than two and none is traversed twice in the same direction.",
  ["inputs"], "every list of faces, open, closed, non manifold, with isolated vertices",
  "Tests load two meshes and check none of it.",
  [MESH], [("TriMeshAdjacencies.__init__", MESH)],
  "TLA+ topology model enumerated with TLC, each mesh replayed into the code", "Exhaustive for up to the model's number of faces and vertices, plus recorded random meshes.")
p("M02", "Normals are normalised sums of face normals, and their backward pass is exact",
  "A face's normal is the unit normal of its plane, on the side its orientation gives, and a vertex's normal is the normalised sum of the unit normals of its faces; faces without area and vertices without faces have a null normal and disturb no other. "
  "The backward pass of the normals is the exact derivative with respect to the vertices.",
  ["inputs"], "every mesh and vertex position, both orientations",
  "Only seen through golden images and fitting curves.",
  [MESH], [("TriMeshAdjacencies.compute_face_normals, compute_vertex_normals and their backward", MESH), ("normalize, normalize_backward, cross_backward", TOOLS)],
  "forward differentiation of the TLA+ mesh specification, trace validation", "Exact arithmetic, tolerance 1e-9.")
p("M03", "Silhouette edges are those between a visible and a hidden face",
  "The edges flagged for antialiasing are exactly the edges of the mesh that have exactly one face turned towards the viewpoint, each flagged on all the faces that have it; faces seen edge-on count as hidden, and the orientation option decides which side of a face is its front.",
  ["inputs"], "every mesh, orientation, camera and viewpoint",
  "Only seen through golden images of closed objects.",
  [MESH], [("edge_on_silhouette", MESH)],
  "TLA+ mesh specification, trace validation", "Exact arithmetic; faces seen edge-on are left open.")
p("M04", "The rigid energy is the Laplacian's quadratic form, with its exact derivatives",
  "The rigid energy of a mesh is the weighted squared norm of the graph Laplacian of the mesh applied to the displacement from the reference; it is zero on translations of the reference. "
  "Its gradient and Hessian are the exact derivatives, for every mesh, weight and displacement.",
  ["inputs"], "every connected mesh, reference and displacement",
  "Seen only through the fitting curves of one hand.",
  [LAP, MESH], [("LaplacianRigidEnergy.evaluate", LAP), ("TriMeshAdjacencies.laplacian", MESH)],
  "TLA+ mesh specification in exact arithmetic, trace validation", "Exact arithmetic, tolerance 1e-9.")
p("M05", "Loop subdivision refines the surface with Loop's rules and keeps orientation",
  "Subdividing a manifold mesh splits every face in four of the same orientation with one new vertex per edge, keeps the numbers of the old vertices and keeps closed meshes closed. "
  "An inner vertex goes to 5/8 of itself and 3/8 of the mean of its neighbours, a new one to 3/8 of its edge's ends and 1/8 of the opposite vertices; on borders these are 3/4 and 1/8 of its border neighbours, and the middle; a vertex of no face stays. "
  "Old vertices keep their colours, new ones get the mean of their edge's, and textured meshes are refused.",
  ["inputs"], "every manifold mesh, open or closed, coloured or not, any number of subdivisions",
  "No stable test subdivides a mesh.",
  [MESH], [("loop_subdivision", MESH)],
  "TLA+ subdivision model, enumerated with TLC on small meshes and validated on recorded subdivisions", "Exact arithmetic, tolerance 1e-9.")
p("M06", "Whatever the order of calls, derived mesh quantities follow the current vertices",
  "After any sequence of changes of vertices or colours and requests of normals, silhouettes, volume, boundary edges and subdivisions, each request returns the value for the current vertices and colours, never one computed for earlier ones, and changes nothing; the gradients of normals accumulate over backward passes for the current vertices. "
  "Subdivisions never share state with the original mesh.",
  ["histories"], "every sequence of updates and requests, closed and open meshes",
  "Tests use a fixed order of calls.",
  [MESH], [("TriMesh.set_vertices, compute_*_normals caching", MESH)],
  "TLA+ lifecycle model enumerated with TLC, histories replayed into the code", "All histories up to the model's depth.")
p("M07", "Conversion between deodr and trimesh meshes loses nothing",
  "A mesh converted to or from the external mesh library's representation, or loaded from a file through it, has at each face corner the same position, vertex colour and sampled texture (gray level, palette and transparent textures included), with the faces looking outside. "
  "Vertices duplicated by the external representation are merged by position, those with several colours at one place or with face colours are refused.",
  ["inputs"], "every mesh, texture and texture coordinate",
  "One golden image of the duck.",
  [MESH], [("ColoredTriMesh.from_trimesh, to_trimesh, trimesh_to_deodr", MESH)],
  "TLA+ conversion model, trace validation", "Corner by corner comparison.")
p("M08", "Only meshes that can be are given a volume, and inside-out ones are refused",
  "The volume of a closed mesh is exactly the volume it encloses. A closed mesh whose faces look inside is refused when it is built, one whose faces look outside is accepted whatever the orientation option, and the volume of an open mesh is refused.",
  ["inputs"], "every open or closed mesh, both orientations",
  "Tests only load closed, well oriented meshes and ask for no volume.",
  [MESH], [("TriMesh.check_orientation, compute_volume", MESH)],
  "TLA+ mesh specification in exact arithmetic, trace validation", "Exact arithmetic, tolerance 1e-9.")
p("S01", "Rendered meshes are lit, projected and composed as specified",
  "The image of a 3D scene is that of its meshes' faces, projected by the camera, coloured by their vertex colours or texture times the ambient plus clamped directional light at the vertex normals, with silhouette edges antialiased. "
  "It follows the scene's background, orientation, back-face culling, pixel centre and perspective options.",
  ["inputs", "configurations"], "every mesh, light, camera, background and option",
  GOLD + ".",
  [REN], [("Scene3D.render, compute_vertices_luminosity", REN)],
  "TLA+ scene specification composing the camera, mesh and raster specifications, trace validation", "Exact arithmetic, tolerance 1e-7.")
p("S02", "The gradient of a rendered mesh is the exact derivative of the image",
  "The backward pass of a rendered 3D scene returns the exact derivative of the scalar product of the image with the adjoint with respect to vertices, vertex colours or texture and texture coordinates, and the directional and ambient lights.",
  ["inputs"], "every mesh, light, camera, adjoint and antialiasing width, without perspective correction",
  "Three loss curves.",
  [REN, MESH, CPP], [("Scene3D.render_backward, _compute_vertices_colors_with_illumination_backward", REN)],
  "forward differentiation of the composed TLA+ specification, trace validation", "Exact derivative, tolerance 1e-6.")
p("S03", "Depth images and their gradients are exact",
  "Rendering the depth of a mesh gives at each pixel the scaled interpolated depth of the nearest face, antialiased at silhouettes against the background, and its backward pass the exact derivative with respect to the vertices.",
  ["inputs"], "every mesh, camera, depth scale, background and adjoint",
  "One loss curve.",
  [REN], [("Scene3D.render_depth, render_depth_backward", REN)],
  "forward differentiation of the composed TLA+ specification, trace validation", "Exact derivative, tolerance 1e-6.")
p("S04", "Deferred rendering returns each attribute of the visible surface",
  "Deferred rendering returns, for each requested attribute (scaled depth, face index, barycentric coordinates, normal, luminosity, position, texture coordinates or colour) that the mesh has, the value interpolated at the visible point of the surface at each pixel. Where nothing is visible the attributes are zero and the depth the largest one of the mesh, scaled.",
  ["inputs", "configurations"], "every mesh, orientation, channel selection and background",
  "No stable test uses it.",
  [REN], [("Scene3D.render_deferred", REN)],
  "TLA+ scene specification, trace validation", "Exact arithmetic, tolerance 1e-7.")
p("S05", "Scenes are rendered as they are now, and gradients add up per rendering",
  "After any sequence of changes of the mesh (its positions, its colours, or another mesh), light, background or antialiasing width, renderings of colours, depth or attributes from any camera, clearings and backward passes, each rendering is that of the current scene and camera. "
  "A backward pass leaves the sum of the contributions given since the last rendering or clearing; one that does not match the kind of the last rendering is refused and changes nothing. "
  "Arrays that were given or returned earlier keep their values, and a light keeps the value it was set to, whatever its caller does with the array afterwards.",
  ["histories"], "every sequence of changes, renderings of the three kinds from several cameras, clearings and backward passes",
  "Tests render and go backward once per iteration in a fixed order.",
  [REN, MESH], [("Scene3D.render, render_backward, render_depth, render_depth_backward, render_deferred, clear_gradients, store_backward_current", REN)],
  "TLA+ lifecycle model enumerated with TLC, histories replayed into the code", "All histories up to the model's depth and random longer ones; images bit for bit, sums of gradients within 1e-9.")
p("F01", "Each fitting step applies its momentum, damping, clamping and flags",
  "One step of a fitter centres the vertices and changes each fitted parameter (vertices, pose, and, if they are to be updated, lights and colour) by its velocity: the inertia-weighted previous one plus the step-weighted gradient of the energy, clamped for geometry, and damped. "
  "The quaternion stays normalised, and parameters whose update is disabled do not change.",
  ["histories", "configurations"], "every mesh, image, camera, sequence of steps, flags and step sizes",
  "Loss curves for default parameters.",
  [FIT, MESH, TOOLS], [("MeshRGBFitterWithPose.step, MeshDepthFitter.step, LaplacianRigidEnergy.evaluate", FIT)],
  "TLA+ step machine (gradients by forward differentiation), trace validation of recorded fitting histories", "Image, error, energy and every parameter after every step, tolerance 1e-6 of the change.")
p("F02", "A reset fitter repeats its history, and energies are those of its state",
  "After a reset, steps give the same energies, images and parameters as on a new fitter, whatever happened before. Changing the image or the background counts from the next step on, changing the initial pose from the next reset on. "
  "The energy a step returns is the data term plus the rigid term of the state it started from.",
  ["histories"], "every sequence of steps, resets and changes of image, background and initial pose",
  "Tests run each fitter once.",
  [FIT], [("reset, set_image, set_images, set_mesh_transform_init, step", FIT)],
  "TLA+ lifecycle model enumerated with TLC, histories replayed into the code", "All histories up to the model's depth and random longer ones, bit for bit.")
p("F03", "Rotations and poses have exact adjoints and ignore quaternion scale",
  "Rotating vectors by a unit quaternion, or by several at once, is the rotation it denotes, and its backward pass, as well as those of normalisation along any axis and of cross products, is the exact derivative with respect to quaternion and vectors. "
  "A pose depends on the direction of the quaternion only. Null vectors stay null and have no gradient.",
  ["inputs"], "every quaternion and vector",
  "Seen only through loss curves.",
  [TOOLS, FIT], [("qrot, qrot_backward, normalize, normalize_backward, cross_backward", TOOLS)],
  "forward differentiation of the TLA+ specification, trace validation", "Exact derivative, tolerance 1e-9.")
p("F04", "The multi-frame fitter fits each frame's image with its own pose",
  "With several frames, the energy is the weighted mean over the frames of the distance of each frame's rendering, with its own pose, to its own image plus the rigid term, and each step updates the shared parameters by the sum of the frames' gradients and each pose by its own. The vertices are centred during the first 500 steps.",
  ["histories", "inputs"], "every number of frames, images and poses",
  "No stable test uses several frames.",
  [FIT], [("MeshRGBFitterWithPoseMultiFrame", FIT)],
  "TLA+ step machine (gradients by forward differentiation), trace validation of recorded fitting histories", "Image, error, energy and every parameter after every step, tolerance 1e-6 of the change.")
p("F05", "Finite difference checks tell exact derivatives from wrong ones",
  "Finite differences give the Jacobian of a function up to their precision, and refuse a function whose value changes from call to call. The check of a Jacobian accepts it when every component is within the tolerance and refuses it otherwise. The point given is not changed.",
  ["inputs"], "every smooth function, point, shape, Jacobian and tolerance",
  "Used as a test tool, never tested.",
  [TOOLS], [("jacobian_finite_differences, check_jacobian_finite_differences", TOOLS)],
  "forward differentiation of the TLA+ specification, trace validation", "Quadratic functions, for which central differences are exact up to rounding.")
p("I01", "OBJ files are read with their geometry and written to be read back",
  "Reading an OBJ file gives its vertices in order and its faces as zero-based triangles, whatever the comments (also at line ends), tabs, spacing and kinds of line ends, optional texture and normal indices, relative indices, continued lines, or weights and colours after the coordinates; polygons are read as the triangles around their first corner; writing a mesh and reading it back gives the same faces and the vertices to the written precision.",
  ["inputs"], "every text that follows the OBJ format",
  "One file is read.",
  [("deodr/obj.py")], [("read_obj, save_obj", "deodr/obj.py")],
  "TLA+ model of the reader as a line machine, files generated by TLC replayed into the code", "Every file of the model's grammar up to its bounds.")
p("I02", "MeshLab exports describe the cameras that were given",
  "The project file written for a mesh and a set of cameras has for each camera its rotation, translation, both focal lengths, centre, viewport, label and image, so that the described camera (without skew and distortion, which the format lacks) projects every point where the given one does. "
  "The mesh and the image files hold the given geometry, its faces seen counter-clockwise from outside, and the given images, of bytes or of values between 0 and 1, gray levels included, and nothing that was given is changed.",
  ["inputs"], "every mesh and set of cameras and images",
  "No test uses it.",
  ["deodr/meshlab_io.py"], [("export_meshlab", "deodr/meshlab_io.py")],
  "TLA+ machine of MeshLab cameras model checked against the camera specification, trace validation of exported projects",
  "Exact arithmetic on the written decimals; the convention of MeshLab's shots (axes, rows from the top) is the specification's, MeshLab is not run.")
p("I03", "OpenGL renderers draw the same scene where the camera projects it",
  "The OpenGL projection and extrinsic matrices derived from a camera map every point to the device position of the pixel where the camera projects it, and the image drawn through moderngl shows at each pixel the texture times the light of the nearest face there, distortion and clipping planes included. "
  "The scene handed to pyrender has the camera, light, faces, normals and texture of the given one, and a renderer shows what was last set, whatever was set and drawn before. Cameras that a renderer cannot draw (with skew, or for pyrender distortion) are refused.",
  ["inputs", "histories"], "every textured scene, camera, near and far plane, pixel centre convention and sequence of settings and renderings",
  "One golden image at 3 decimals.",
  ["deodr/opengl/moderngl.py", "deodr/opengl/pyrender.py", "deodr/opengl/shaders.py"],
  [("opencv_to_opengl_perspective, OffscreenRenderer", "deodr/opengl/moderngl.py"), ("deodr_scene_to_pyrender_scene, render", "deodr/opengl/pyrender.py"), ("vertex and fragment shaders", "deodr/opengl/shaders.py")],
  "TLA+ model of the OpenGL pipeline and of renderer histories, trace validation of matrices, scenes and images",
  "moderngl's images (software OpenGL) are judged at sampled pixels away from the sides of faces, to 5 levels of 255; pyrender's scene is recorded instead of drawn because PyOpenGL does not work with this Python.")
p("I04", "The PyTorch front end returns the specified values and gradients",
  "Rendering, depth images, projection, normals and rigid energy give through the PyTorch front end the values specified for the numpy one, and automatic differentiation gives their exact derivatives with respect to vertices, colours and lights. "
  "Any number of renderings can be made, changed scenes included, before backward passes in any order, one at a time or together, once or repeatedly; each contributes the gradient of its own rendering.",
  ["inputs", "histories"], "every scene, parameter and order of renderings and backward passes",
  "Tests compare loss curves with tolerance, each rendering being followed by its backward pass.",
  ["deodr/pytorch/differentiable_renderer_pytorch.py", "deodr/pytorch/triangulated_mesh_pytorch.py", "deodr/pytorch/laplacian_rigid_energy_pytorch.py"],
  [("TorchDifferentiableRenderer2DFunc, Scene3DPytorch, CameraPytorch", "deodr/pytorch/differentiable_renderer_pytorch.py"),
   ("TriMeshAdjacenciesPytorch, ColoredTriMeshPytorch", "deodr/pytorch/triangulated_mesh_pytorch.py"), ("LaplacianRigidEnergyPytorch", "deodr/pytorch/laplacian_rigid_energy_pytorch.py")],
  "TLA+ scene, camera and mesh specifications with exact tangents (trace validation), TLA+ model of tapes whose histories TLC enumerates and the code replays",
  "Untextured scenes with a directional light (the front end has no others); values to 1e-7, gradients to 1e-6.")
p("F06", "The PyTorch fitters make the specified steps and repeat them after a reset",
  "A step of a PyTorch depth or colour fitter changes vertices, pose, lights and colour by the exact gradient of data and rigid energy through momentum, damping, clamping and flags, and returns the energy and images of the state before it. "
  "The L-BFGS depth fitter evaluates the exact energy and gradient and takes the L-BFGS step, and a reset fitter repeats its history whatever it did before.",
  ["inputs", "histories"], "every mesh, image, pose, parameter and sequence of steps and resets",
  "Tests compare the energies of one run with tolerance.",
  ["deodr/pytorch/mesh_fitter_pytorch.py"],
  [("MeshDepthFitter, MeshRGBFitterWithPose, MeshDepthFitterEnergy, MeshDepthFitterPytorchOptim, qrot", "deodr/pytorch/mesh_fitter_pytorch.py")],
  "TLA+ step machine of the fitters (trace validation), TLA+ model of fitter lives whose histories TLC enumerates and the code replays",
  "Steps whose gradient is not determined (ties, kinks) are not judged; L-BFGS is specified as torch.optim's with one iteration per step.")
p("I05", "The viewer's mouse and key commands move the camera and toggle as documented",
  "In any sequence of commands, dragging with the left button turns the view about the object by an angle proportional to the drag, or about the camera in the other mode; the other gestures pan parallel to the image, move along or turn about the optical axis, or change the field of view; resizing the window keeps the horizontal one. "
  "Each key changes exactly its option (renderer, texture mapping, lights, antialiasing, recording, mouse mode), the mouse none, and every displayed frame is the rendering of the scene with the current camera, lights and options. "
  "Recordings hold exactly the frames shown while recording, and putting the camera back returns to the first view of the object.",
  ["histories"], "every sequence of mouse and key events",
  "Viewers are never driven by tests.",
  ["deodr/examples/mesh_viewer.py"], [("Interactor.mouse_callback, rotate", "deodr/examples/mesh_viewer.py"), ("Viewer.refresh, process_key, toggle_*, recenter_camera, resize_camera, set_light", "deodr/examples/mesh_viewer.py")],
  "TLA+ state machine of the viewer enumerated with TLC, sessions replayed into the code and their frames validated",
  "OpenCV's window is replaced by a stand-in; one button at a time, no resizing while recording; the gains of the gestures are measured, their form is specified.")

if __name__ == "__main__":
    root = os.path.dirname(HERE)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            files = x["files"] if isinstance(x["files"], list) else [x["files"]]
            f.write(json.dumps(dict(
                id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]),
                why_tests_cant=x["why"],
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in x["mech"]]))) + "\n")
    claimed = [x for x in P if x["id"] in checks.CHECKS]
    man = dict(
        version=1, setup_cmd="./setup",
        checks=[dict(property=x["id"], quick_cmd=f"./check {x['id']} quick", thorough_cmd=f"./check {x['id']} thorough",
                     technique=x["technique"], level="model_checking", level_note=x["note"]) for x in claimed],
        not_applicable=[dict(property=x["id"], reason="its specification is not written") for x in P
                        if x["id"] not in checks.CHECKS])
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
