#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from suites import PROPS

L = []


def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, technique=None, note=None, level="model_checking"):
    L.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], technique=technique, note=note, level=level))


P("C01", "PMX models survive writing and reading unchanged",
  "Writing any model that the PMX format can express and reading the result back yields the same model: vertices with their skinning, faces, textures, materials, bones with IK and append settings, morphs, rigid bodies and joints, every cross reference naming the same element. This holds for every element count, including models too large for the smallest reference widths. Writing the result again produces the same bytes.",
  ["inputs", "histories"], "every PMX model (all skinning types, bone flag combinations, morph kinds, reference widths) and every number of write/read cycles",
  "No test writes a PMX file at all; a handful of samples could not cover the reference widths, flags and skinning types that select different encodings.",
  ["mmd/pmx_writer.go", "mmd/pmx_parser.go", "mmd/mmd.go"],
  [dict(name="writer and parser encode/decode the same layout", where="mmd/pmx_writer.go, mmd/pmx_parser.go")],
  ["model read back from the written bytes"])
P("C02", "PMX, PMD and VMD files are decoded exactly as encoded",
  "Reading a well formed PMX, PMD or VMD file yields exactly the values encoded in it, for every text encoding, reference width, number of additional UVs, skinning type, bone flag and morph kind the header may declare, and every reference (including the reserved 'none') resolves to the element the file names. Nothing in the file shifts or swallows what follows it. Out of scope: the contents of bone morphs' rotations beyond their four numbers, display groups, local bone axes, PMX 2.1 additions (QDEF, soft bodies) and the physics section of PMD files.",
  ["inputs"], "every well formed PMX/PMD/VMD file with any header configuration",
  "The repository has no MMD sample files and no tests for these readers.",
  ["mmd/pmx_parser.go", "mmd/pmd_parser.go", "mmd/vmd_parser.go", "mmd/base_parser.go"],
  [dict(name="typed readers driven by the header attributes", where="mmd/base_parser.go, mmd/pmx_parser.go")],
  ["decoded model"])
P("C03", "MQO documents survive saving and loading, plain or zipped",
  "Saving a document and loading it back, as a plain file with its companion plugin file or as a zipped one, yields the same scene, materials (including shader settings), objects, faces, bones, weights, morphs, poses and physics, apart from what the format cannot express (non-positive identifiers, backslashes in texture paths, duplicate names, colour digits beyond the third decimal). Saving changes nothing in memory except making duplicate names unique, and any number of save/load cycles in any mix of the two formats leaves the document the same.",
  ["inputs", "histories"], "every document and every sequence of edits, saves and loads in both formats",
  "No test in the stable suite writes or reads an MQO file; the quantifier is over documents and save/load histories.",
  ["mqo/mqo_writer.go", "mqo/mqo_parser.go", "mqo/mqx_writer.go", "mqo/mqx_parser.go", "mqo/bone_plugin.go", "mqo/morph_plugin.go", "mqo/physics_plugin.go"],
  [dict(name="text writer/parser pair", where="mqo/mqo_writer.go, mqo/mqo_parser.go"), dict(name="plugin XML", where="mqo/mqx_*.go")],
  ["document after load", "document in memory after save"])
P("C04", "FBX files decode to the same tree from text and binary, and rewrite losslessly",
  "Reading a well formed FBX file yields exactly its tree of nodes and typed attributes, whether the file is binary (any supported version, compressed or plain arrays) or text, and a tree written by the tool reads back as the same tree. Objects, their properties and their connections are resolved identically for both encodings.",
  ["inputs"], "every node tree, attribute type, array encoding and binary version",
  "The only stable FBX test builds an empty document; no sample reaches array encodings, escapes or nesting.",
  ["fbx/binary_parser.go", "fbx/text_parser.go", "fbx/fbx_node.go", "fbx/fbx_document.go", "fbx/fbx.go", "fbx/fbx_object.go"],
  [dict(name="binary and text parsers, node dump", where="fbx/binary_parser.go, fbx/text_parser.go, fbx/fbx_node.go")],
  ["node tree and object graph after reading"])
P("C05", "MMD to MQO keeps every face, weight, bone, morph and body",
  "Converting an MMD model yields a document in which every face appears exactly once with the same corner positions (mirrored in depth), texture coordinates and material, every skinned corner keeps its bone weights, bones keep names, positions and parents, and every vertex morph moves exactly the corners it moves in the source by the same amount. Rigid bodies keep their shape, place, bone and parameters. Out of scope: several morphs of one name, additional UVs and their morphs, SDEF parameters, material morphs that address all materials.",
  ["inputs"], "every MMD model: any sharing of vertices between faces, materials and morph groups",
  "No test converts an MMD model; morph grouping and vertex splitting depend on how faces share vertices.",
  ["converter/mmd2mqo.go"],
  [dict(name="morph grouping and vertex remapping", where="converter/mmd2mqo.go")],
  ["converted document"])
P("C06", "MQO to PMX keeps every visible face, weight, bone, morph and body",
  "Converting a document to PMX yields a model whose faces are exactly the visible objects' faces that have a material (split into triangles, depth mirrored) grouped by material in material order, with the texture coordinates, normals and bone weights (up to four bones) of their corners, bones with the same names, positions and parents, morphs that displace the same corners by the same amount, and bodies with the same shape, place, mode and bone. All references inside the model are valid. Out of scope: vertices weighted to more than four bones, joints, one target listed in several morph lists, texture coordinate displacements, the double-sided flag.",
  ["inputs"], "every document: hierarchies, polygons, materials, weights, morphs, physics",
  "No test converts to PMX.",
  ["converter/mqo2mmd.go"], [dict(name="vertex/face emission per material", where="converter/mqo2mmd.go")], ["converted model"])
P("C07", "MQO to glTF keeps the visible surface, its materials and the hierarchy",
  "Converting a document to glTF yields a file in which every face of every visible exported object that has one of the kept materials appears exactly once, as triangles covering it with the corner positions, texture coordinates and normals of the source at the configured scale, facing outwards, under that material with its colour, emission, sidedness, alpha mode and texture picture, below a node tree that reflects the object hierarchy. Shapes of morphs, hidden objects and faces of dropped materials are not drawn, nothing else is, and every index, accessor and buffer range in the file is valid. Sharing the geometry of instances changes nothing of this. Texture coordinates and normals of one position that agree within a hundredth may be merged. Out of scope: sharing together with skins, morphs or mirrored instances; lights; the physics extension.",
  ["inputs", "configurations"], "every document and converter option",
  "No test converts to glTF.",
  ["converter/mqo2gltf.go", "mqo/utils.go", "geom/utils.go"],
  [dict(name="vertex de-duplication, triangulation and per-material primitives", where="converter/mqo2gltf.go")], ["decoded glTF"])
P("C08", "MQO to glTF keeps skinning and morphing",
  "In the converted glTF every corner of a skinned face is influenced by exactly the bones the document weights it to (the four largest when there are more), with weights that sum to one and joints at the bones' positions so that the bind pose leaves the surface where it was; every morph target displaces exactly the corners the document's target moves, by the same amount, under its name. Out of scope: which of equally large weights is kept beyond four; sharing geometry of skinned or morphed objects.",
  ["inputs", "configurations"], "every document with bones and morphs",
  "No test converts skins or morphs.",
  ["converter/mqo2gltf.go"], [dict(name="joint assignment, inverse bind matrices, morph deltas", where="converter/mqo2gltf.go")], ["decoded glTF"])
P("C09", "glTF to MQO keeps every triangle, its material and the skeleton",
  "Importing a glTF file yields a document with one object per mesh node holding every triangle of the node's mesh exactly once (lists, strips and fans, with or without indices; lines and points draw none), at its place in the scene (skinned meshes where they are bound), front side out, with its texture coordinates and its primitive's material. Materials keep their name, colour, emission, metallic and roughness factors, sidedness, alpha mode, cutoff and external texture file; every skin joint is one bone with the node's name, scene position and parent. Out of scope: vertex weights, morph targets, pictures embedded in the file, primitives without material, the unlit extension.",
  ["inputs"], "every glTF scene: multiple primitives, shared meshes, index types, accessor layouts, transforms, skins",
  "No test imports glTF.",
  ["converter/gltf2mqo.go"], [dict(name="primitive and joint import", where="converter/gltf2mqo.go")], ["converted document"])
P("C10", "FBX to MQO keeps every polygon, material, skin weight and shape",
  "Importing an FBX scene, text or binary, yields a document with every polygon of every mesh model exactly once at its world position in the file's axes, front side out, with the texture coordinates, normals and material its layers assign in whatever mapping (per polygon vertex, per control point, per polygon, all the same; direct or indexed); the models that carry meshes keep their names and hierarchy. Bones are the models the clusters name and their ancestors, with names, bind positions, parents and weights in percent; blend shapes, nested or connected, become hidden morph targets with the same displacements. Materials keep colour (own or from the template), opacity and the picture connected as diffuse colour. (Pivots, rotation orders other than XYZ, geometric offsets and models without material are not covered.)",
  ["inputs"], "every FBX scene: layer mapping/reference modes, hierarchies, deformers",
  "No stable test imports an FBX scene.",
  ["converter/fbx2mqo.go", "fbx/fbx_geometry.go", "fbx/fbx_model.go", "fbx/fbx_material.go"],
  [dict(name="layer element mapping, deformer conversion", where="converter/fbx2mqo.go, fbx/fbx_geometry.go")], ["converted document"])
P("C11", "Unity packages and projects: right asset, nothing outside, nothing left",
  "Every asset of a package or project folder is found under its identifier and under its path with exactly its own content, and under no other. Whatever a package archive contains, opening it writes nothing outside its own extraction folder, and after closing (or after an opening that failed) no temporary files remain. Entries of odd kinds or names (links, absolute or escaping paths) may be refused or skipped; archive checksums are not judged.",
  ["inputs", "histories", "fault_sequences"], "every archive (entry names, order, truncation) and every open/close history",
  "Tests open two sample fixtures; hostile names, truncation and histories are not sampled.",
  ["unity/unity_assets.go"], [dict(name="archive extraction and lookup tables", where="unity/unity_assets.go")],
  ["files on disk", "looked-up assets"])
P("C12", "Unity scenes load as the hierarchy the files describe",
  "Loading a scene or prefab yields every game object exactly once, at the place its parent links give it, with its name, tag, activity, components (in their order, with their values and references), and with parent, children, and world transform (z mirrored) agreeing; children come in the order their parent lists them, then those it does not list (roots of prefab instances, objects added to instances) in file order; roots come in file order. A prefab instance contributes the first root of its prefab and everything below it with exactly the recorded modifications of names, tags, activity, local position/rotation/scale, numbers, references and array entries, independently of other instances; instances of missing files or of a file inside itself contribute nothing, and documents that are empty, broken or unknown are skipped without failing. Out of scope: resizing arrays, added or removed components, m_RootOrder, objects of nested instances that are modified without a stripped entry in the prefab.",
  ["inputs"], "every scene file: hierarchies, nesting of prefabs, modifications, document order",
  "One sample scene is loaded by tests.",
  ["unity/unity_scene.go", "unity/unity_components.go", "unity/unity_yaml.go", "unity/unity.go"],
  [dict(name="document splitting, component resolution, prefab instantiation", where="unity/unity_scene.go, unity/unity_yaml.go")], ["loaded scene"])
P("C13", "Unity to MQO keeps meshes, placement, materials and colliders",
  "Converting a loaded scene yields one object per game object in the scene's hierarchy (named after it; objects with a built-in mesh get its name appended, a mesh of an FBX file becomes a child object), visible exactly if the game object and all its parents are active and, for meshes, the renderer is enabled. Every object that has a mesh and a renderer gets that mesh once, at its world place in the right handed system (z negated), front faces clockwise also in mirrored objects, with the materials its renderer names: each material once, with the colour, emission and textures of its file, texture coordinates multiplied by the material's tiling; saved textures are copies of the project's pictures. With physics, each box, sphere, capsule and built-in mesh collider becomes a shape at its world centre with its size, axis and its body's mass, damping and kinematic flag. Lights keep kind, colour, intensity and range. Missing or unsupported meshes, materials and textures never make the conversion fail. Out of scope: texture offsets, triggers, the rotation of shapes of turned objects, sizes of capsules and spheres under uneven scale, materials of FBX files without renderer materials.",
  ["inputs", "configurations"], "every scene and converter option",
  "No stable test converts a Unity scene.",
  ["converter/unity2mqo.go", "unity/unity_builtin.go", "unity/unity_material.go"],
  [dict(name="node walk with accumulated transforms", where="converter/unity2mqo.go")], ["converted document"])
P("C14", "VRM export maps bones, expressions and springs consistently",
  "Applying a VRM configuration to a model assigns each humanoid bone to at most one existing node and each node to at most one humanoid bone, never to a mesh node: the first existing, still unassigned candidate of the first mapping of that bone that has one, explicit mappings before those of the preset, bones mapped to nothing staying unassigned, and required bones left over going to nodes of their name. Expressions bind existing morphs only (explicit and preset mappings, and with exportAllMorph every other morph once), also for models loaded from files; the first person bone is the head's node. Spring chains start at the bones a group's names or patterns match, topmost first, and no bone swings in two groups; chains found in the physics are exactly the maximal dynamic ones. Colliders sit on existing nodes and spring groups keep referring to the collider groups their settings meant, also when others are dropped or a preset is merged. Material settings apply by name before '*', explicit ones before the preset's, and change only what they set. Settings that name things the model lacks have no other effect and never make the export fail; a preset that does not exist is an error. Saving and loading the result changes none of this. Out of scope: several nodes or morphs of one name, names containing pattern characters, models that already carry a VRM extension, equal expression names.",
  ["inputs", "configurations"], "every model and configuration, including presets",
  "A single test checks an accessor of the extension.",
  ["converter/vrmconfig.go", "vrm/vrm.go", "vrm/vrm_extension.go"],
  [dict(name="configuration application", where="converter/vrmconfig.go")], ["VRM extension of the output"])
P("C15", "VMD motion becomes a valid glTF animation with the same keys",
  "Adding a motion to a glTF model, converted or loaded, turned half around or not, yields one animation (none when nothing of the model is moved) and leaves the model itself as it was. Its channels each drive another part of an existing node with linear, strictly increasing key times of declared bounds and one value per key. Each bone track holds exactly the motion's keys for that bone at 30 frames per second, once per frame, moving the node from its rest place by the motion's amount in model units; a bone that never leaves its rest needs no track. Each node whose mesh has expressions the motion moves gets one weights track over the keys of all of them, following every expression along the lines between its keys, also outside of 0 to 1. Tracks for bones or morphs the model lacks are ignored without affecting others. Out of scope: several bones or expressions of one mesh with equal names, quaternions not of unit length, bones straightened before, inverse kinematics, interpolation curves.",
  ["inputs"], "every motion: any key order, duplicates, missing bones, multiple morphs",
  "No test covers animation.",
  ["converter/glbanim.go", "mmd/vmd_parser.go"], [dict(name="track grouping and sampler creation", where="converter/glbanim.go")], ["decoded glTF animation"])
P("C16", "A save that reports success has stored everything",
  "If any part of the output of a save cannot be written, at whatever point the failure occurs, the save reports an error; when it reports success the complete output is stored. Files opened for saving are closed.",
  ["crash_points", "fault_sequences"], "every format's writer and every byte offset at which writing can fail",
  "Tests never inject write failures.",
  ["mqo/mqo_writer.go", "mqo/mqx_writer.go", "mmd/pmx_writer.go", "mmd/mmd.go", "fbx/fbx.go", "fbx/fbx_node.go", "vrm/vrm_writer.go"],
  [dict(name="buffered writers and their flush results", where="mqo/mqo_writer.go, mmd/pmx_writer.go, fbx/fbx.go")], ["return value and bytes stored under injected write faults"])
P("C17", "Truncated input is reported, never silently accepted or fatal",
  "Reading an MMD, MQO (plain, plugin or zipped), FBX or glTF file that was cut off at any point never crashes or ends the process, and either reports an error or yields the same result as the complete file; a text FBX file, which has no end mark, may yield just the top level nodes that are complete. A read failure before the needed data has arrived is always reported, and how the data is divided into reads makes no difference.",
  ["crash_points", "inputs"], "every file of every supported input format and every truncation or read failure point",
  "Tests never feed damaged input.",
  ["mmd/base_parser.go", "mmd/pmx_parser.go", "mmd/pmd_parser.go", "mmd/vmd_parser.go", "fbx/binary_parser.go", "fbx/text_parser.go", "mqo/mqo_parser.go"],
  [dict(name="sticky read errors", where="mmd/base_parser.go, fbx/binary_parser.go")], ["outcome of reading each prefix"])
P("C18", "Polygon splitting covers the polygon exactly",
  "Splitting a simple planar polygon of any shape and orientation yields triangles that use only its corners, do not overlap, cover exactly its area and keep its orientation; a polygon of n corners yields n-2 triangles.",
  ["inputs"], "every simple polygon, convex or not, in any plane and from any starting corner",
  "The test samples two polygons.",
  ["geom/utils.go", "mqo/utils.go"], [dict(name="ear clipping", where="geom/utils.go")], ["triangles returned"])
P("C19", "Rotation, matrix and vector operations agree with each other",
  "Matrices, quaternions and Euler angles of every rotation order describe the same rotation after conversion, composition matches applying one after the other, an inverse undoes its transform, and decomposing an invertible transform without shear into translation, rotation and scale reproduces it.",
  ["inputs"], "all rotations and transforms (checked on the cube group, lattice scales and translations exhaustively, and on seeded angles)",
  "Tests sample a few angles of one or two orders.",
  ["geom/matrix4.go", "geom/quaternion.go", "geom/euler.go", "geom/vector3.go"],
  [dict(name="conversion formulas", where="geom/*.go")], ["results of operations"])
P("C20", "Whole-document transforms move everything together",
  "Transforming a document moves every vertex, bone, body and joint by that transform, keeps normals perpendicular and of unit length, faces and weights as they were, and moves every object's world placement by the transform exactly once; world placements computed from the hierarchy compose every ancestor's placement. Posing a bone moves exactly that bone and its descendants (in whatever order they are listed), the vertices weighted to them in proportion to weight, the same vertices of their morph targets, and the bodies attached to them; straightening a bone turns its longest child onto the X axis that way.",
  ["inputs", "histories"], "every document hierarchy, skeleton and transform",
  "No test transforms a document.",
  ["mqo/mqo.go", "mqo/utils.go", "mqo/bone_plugin.go", "mqo/physics_plugin.go"],
  [dict(name="transform application", where="mqo/utils.go, mqo/bone_plugin.go")], ["document after the operation"])
P("C21", "Document edits keep identities, references and copies intact",
  "Making names or identifiers unique never changes an element that was already unique, never yields duplicates and is stable when repeated; a copy of an object is equal to it and independent of it; applying a morph moves exactly the base object's vertices by the requested share of the target's displacement (the other targets of that base moving along, so that their displacements stay) and blends the colours of its material morphs; looking up objects and vertices by identifier finds the one that carries it; filling in normals keeps given ones; splitting or flipping faces keeps their surface, materials and attributes.",
  ["inputs", "histories"], "every document and every sequence of edits",
  "No test edits documents.",
  ["mqo/mqo.go", "mqo/utils.go", "mqo/morph_plugin.go"], [dict(name="edit operations", where="mqo/*.go")], ["document after each edit"])
P("C22", "Command line options have exactly their documented effect",
  "For every supported pair of input and output formats and every combination of options, the tool either writes an output that reflects exactly the requested selections (hiding, material filtering, re-parenting, morphing, scaling, unlit and alpha settings) applied to the input, or exits with a failure status; it never crashes, and reports success only if the output file is complete. Selections match whole names or patterns with * and ?; hiding an object hides its descendants; a half turn and scales move vertices, bones and bodies alike (MMD models are enlarged 80 times unless a scale is given); glTF to glTF honours scales only. The stored PMX or glTF is the library's conversion of the document the same request stores as MQO. Missing or unreadable inputs, unknown formats, unwritable outputs, malformed morph, parent and alpha values and missing presets are failures. Out of scope: requests that contradict themselves (hiding and showing a material, parents in a circle or missing), the alpha mode of materials made unlit, names with slashes, commas or colons, automatic T pose, physics and texture options.",
  ["inputs", "configurations"], "all format pairs and option combinations",
  "No test runs the command.",
  ["cmd/modelconv/main.go", "cmd/modelconv/utils.go"], [dict(name="option pipeline", where="cmd/modelconv/main.go")], ["exit status and output file"])
P("C23", "In-place glTF edits keep the scene consistent",
  "Scaling a glTF file by a positive factor (one for all axes, or one per axis when no node is rotated) scales every drawn position, node offset, morph displacement, animated offset and bind pose alike, so that the posed surface is exactly the scaled original. Embedding the external files that exist, normalising joint indices, resetting joint rotations (which leaves no rotation on nodes without mesh) and removing an extension leave everything that is drawn, and every node's place, unchanged; all but the reset also keep animations. Whatever the order of such edits, every index, accessor, bound and buffer range stays valid and the file can be stored. Out of scope: mirroring factors, unevenly scaled nodes under a reset, animations after a reset, accessors sharing their bytes, settings of VRM extensions.",
  ["inputs"], "every glTF file: hierarchies, skins, morphs, accessor layouts",
  "No test covers these utilities.",
  ["gltfutil/gltf_utils.go", "gltfutil/gltf_joint.go"], [dict(name="accessor rewriting", where="gltfutil/*.go")], ["decoded glTF before and after"])
P("C24", "Conversion is deterministic",
  "Converting the same input with the same options any number of times, in one process or several, produces identical output files, byte for byte.",
  ["histories", "schedules"], "every conversion and every repetition (map iteration orders are scheduled differently each time)",
  "Tests convert each input at most once.",
  ["converter/", "mqo/mqo_writer.go", "cmd/modelconv/main.go"], [dict(name="ordered emission", where="converter/*.go")], ["output bytes of repeated runs"])
P("C25", "MQO to glTF keeps shader extensions, lights and physics bodies",
  "Converting a document to glTF, each used material with the glTF shader carries exactly the material extensions its switches turn on (specular, clearcoat, sheen, ior, volume, transmission, unlit; unlit also for constant shading, when everything is unlit, or for metallic 0 with roughness 1), each with the shader's numbers (those that are 0 may be absent), its colours and the mapped pictures that exist; a missing picture is left out. With lights exported, every visible exported object that is a light appears as exactly one light with its parameters, at the place and turn of the object, and nothing that is drawn moves because of it. With physics converted, every body with shapes is found at the node of the bone and of the object it is attached to, every shape with its kind, size and place in the scene; bodies at one node are joined: all shapes, the sum of their masses, fixed if any of them is. Bodies without shapes or with missing targets add nothing. Every extension in use is declared, and parents stay trees. Out of scope: turns of shapes, physics together with shared geometry, collision groups of joined bodies.",
  ["inputs", "configurations"], "every document: shader settings, lights anywhere in the hierarchy, bodies, and the options that export them",
  "No test converts to glTF; the extensions, lights and bodies are only produced by it.",
  ["converter/mqo2gltf.go", "mqo/mqo.go"], [dict(name="material extensions", where="converter/mqo2gltf.go convertMaterial"), dict(name="lights and physics bodies on nodes", where="converter/mqo2gltf.go Convert, addPhysicsBody")], ["extensions of the decoded glTF and the places of their nodes"])

TECH = "TLA+ specification checked with TLC; its cases and seeded executions replayed into the real code; recorded traces validated by TLC"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in L:
            a = dict(files=p["files"], mechanism=p["mech"], hook_needed=None)
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        q = PROPS.get(p["id"])
        if not q or q.get("disabled"):
            na.append(dict(property=p["id"], reason=(q or {}).get("reason", "not built yet")))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=q.get("technique", TECH), level=q.get("level", p["level"]), level_note=q["note"]))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                   notes="All checks use only the exported API and the command line tool; no hooks in /repo are needed."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
