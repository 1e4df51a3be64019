#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LOADERS = ["mmd/base_parser.go", "mmd/pmx_parser.go", "mmd/pmd_parser.go", "mmd/vmd_parser.go", "mqo/mqo_parser.go", "mqo/mqx_parser.go", "fbx/binary_parser.go", "fbx/text_parser.go", "gltfutil/gltf_utils.go", "vrm/vrm_parser.go", "unity/unity_assets.go", "unity/unity_scene.go"]
WRITERS = ["mmd/pmx_writer.go", "mqo/mqo_writer.go", "mqo/mqx_writer.go", "fbx/fbx.go", "gltfutil/gltf_utils.go", "vrm/vrm_writer.go", "cmd/modelconv/main.go"]

prop("C01", "Loading does not depend on how the storage delivers the bytes",
 "A model, motion or package file (.pmx, .pmd, .vmd, .mqo, .mqx, .mqoz, .fbx, .gltf, .glb, .vrm, .unity, .unitypackage) loads to the same document, or converts to the same output bytes, however its bytes are delivered. Any split into short reads, interrupted reads that are retried, empty reads, and data returned together with the end of the file give the result of one big read.",
 ["schedules", "inputs", "fault_sequences"], "every valid input file, every sequence of read sizes and interruptions by which the reader or the kernel delivers it",
 "The tests load a handful of in-memory or small files that arrive in one read; read boundaries inside a field, a multi-byte character or a compressed block never occur.",
 LOADERS, [("binary parsers read fixed-size fields through one reader", "mmd/base_parser.go, fbx/binary_parser.go"), ("text scanner over a transforming reader", "mqo/mqo_parser.go"), ("whole-file read before decoding", "gltfutil/gltf_utils.go Parse")],
 ["return values of the load functions", "exit status and output files of the command"])

prop("C02", "An input that cannot be read is an error, never a partial model",
 "If reading a model fails part way (an I/O error when opening or reading the model file, its .mqx companion, an external glTF buffer, a motion file, or the scene or package of a Unity project), loading returns an error and the command exits with a failure status. It never delivers a document that differs from the one the complete file holds.",
 ["fault_sequences", "inputs"], "every valid input, every read or open operation on it that can fail, every error and position",
 "Tests never fail an I/O operation; most parsers historically ignored read errors and returned what they had.",
 LOADERS + ["cmd/modelconv/utils.go"], [("first error of a read is kept and returned", "mmd/base_parser.go, mqo/mqo_parser.go, fbx/binary_parser.go"), ("errors of companion files are returned", "mqo/mqo_parser.go Parse")],
 ["error result of load functions", "exit status of the command"])

prop("C03", "A truncated input is rejected, never loaded as a smaller model",
 "Loading a file that lost its tail (a torn download or copy) returns an error, or the same document when only bytes that carry no content were lost. This holds for every cut position in .pmx, .pmd, .vmd, binary .fbx, .mqo (inside any chunk), .mqx, .mqoz, .gltf, .glb, .vrm, external glTF buffers and .unitypackage; only formats without an end marker (text cut exactly between top-level sections, optional trailing sections of .pmd and .vmd) may load what precedes the cut.",
 ["inputs", "fault_sequences", "crash_points"], "every valid input and every truncation length",
 "No test truncates a file; there are as many cut positions as bytes and parsers fail differently at each.",
 LOADERS, [("short reads are errors", "mmd/base_parser.go, fbx/binary_parser.go, mqo/mqo_parser.go"), ("archive drained so that its checksum is verified", "mqo/mqo_parser.go, unity/unity_assets.go"), ("length of external buffers checked", "gltfutil/gltf_utils.go")],
 ["results of load functions"])

prop("C04", "Damaged input never crashes the loader, and checksummed archives reveal damage",
 "Loading a file with corrupted content (flipped bits, zeroed or stale sectors, garbage, inconsistent counts) returns a document or an error: it does not panic, terminate the process, or use memory out of proportion to the file. For archives that carry checksums (.mqoz, .unitypackage) damage to a member's stored data gives an error or the undamaged document, never a different one (the member names in a zip directory carry no checksum).",
 ["inputs", "fault_sequences"], "every valid input and every corruption of its stored bytes",
 "Tests only load well-formed files.",
 LOADERS + ["fbx/fbx_document.go", "unity/unity_yaml.go"], [("counts are bounded by the data that is present", "mmd/base_parser.go, fbx/binary_parser.go, mqo/mqo_parser.go"), ("no process exit inside parsers", "mmd/base_parser.go")],
 ["results of load functions", "process status"])

prop("C05", "A conversion that reports success has stored every byte of its output",
 "When saving a document, or the command, reports success, every output file (the model and its companions: .mqx, external buffers) holds exactly the bytes that a run on a perfect disk writes. A texture copy saved beside a Unity source may be given up, but one that is there under its name is complete. Whatever create, write or close operation failed, was short, or ran out of space, the alternative is an error and a failure exit status.",
 ["fault_sequences", "crash_points", "inputs"], "every document and output format, every create/write/close/rename on the way and every error it can return (I/O error, short write, full disk, quota, read-only, deferred error at close)",
 "Tests write to memory or a healthy disk; nothing fails a write.",
 WRITERS + ["converter/unity2mqo.go"], [("first write error is kept and returned", "mmd/pmx_writer.go, mqo/mqo_writer.go, gltfutil/gltf_utils.go"), ("close errors are returned", "all Save functions")],
 ["error result of save functions", "exit status of the command", "content of the output files"])

prop("C06", "What was saved last is what is loaded, over any history of saves",
 "After any history of saves, loads, failed saves, crashes and restarts on the same paths, loading a path whose last save succeeded gives the document that was saved there, for .mqo (with its .mqx), .mqoz, .pmx, .fbx, .gltf, .glb and .vrm, also when the path held a file of another program before. Saving does not change the document's content, saving it again writes the same bytes, and no residue of an earlier, larger or failed save shows through.",
 ["histories", "fault_sequences", "crash_points", "inputs"], "every sequence of save, load, fault, crash and restart over several paths and documents",
 "The repository has no save/load round-trip test for most formats and none with a history.",
 WRITERS + LOADERS, [("outputs are truncated when opened", "Save functions"), ("writers and parsers agree on the format", "mqo, mmd, fbx packages")],
 ["documents returned by load functions", "bytes of the saved files"],
 state=[("path -> document", "reference model: the last document saved successfully at each path", "simulated disk")])

prop("C07", "A failed conversion says so and touches nothing it should not",
 "If the command cannot do the conversion it was asked for, it exits with a failure status; when the cause is that the input cannot be loaded, files that existed before, including an older output, are left as they were and no new file appears. No run, successful or not, modifies or removes its input files.",
 ["fault_sequences", "inputs", "histories"], "every input and output format, every fault on the way, with and without older files at the output path",
 "There are no tests of the command at all.",
 ["cmd/modelconv/main.go", "cmd/modelconv/utils.go"] + WRITERS, [("load completes before the output is created", "cmd/modelconv/main.go main"), ("log.Fatal on every error", "cmd/modelconv/main.go")],
 ["exit status", "all files of the simulated disk before and after"])

prop("C08", "Temporary extraction directories never outlive the run",
 "When a run on a .unitypackage ends other than by being killed, whether it succeeded or failed and at whatever step, nothing it extracted remains in the temporary directory. Closing an opened package removes all of its extracted files, and a package that cannot be opened leaves none.",
 ["fault_sequences", "inputs", "histories"], "every package, every failing operation during extraction, scanning, scene loading and conversion (other than failures of the removal itself)",
 "Tests open one good package; leaks on error paths are invisible to them.",
 ["unity/unity_assets.go", "cmd/modelconv/utils.go"], [("temporary directory removed on error and on close", "unity/unity_assets.go OpenPackage, Close"), ("package closed before the result is returned", "cmd/modelconv/utils.go loadDocument")],
 ["content of the temporary directory after the run"])

prop("C09", "Reading a package or project writes only where it may",
 "Opening or converting a .unitypackage or Unity project, however hostile the names inside it (parent directory components, absolute paths, links, odd identifiers), creates, changes or removes files only below its own temporary directory, the saved-textures directory beside the source, and the output path. Everything else on the disk stays as it was.",
 ["inputs", "fault_sequences"], "every archive member name and type and every asset identifier, also when operations fail in between",
 "The one package in the tests has well-formed names.",
 ["unity/unity_assets.go", "converter/unity2mqo.go"], [("member names are checked against the extraction directory", "unity/unity_assets.go extractPackage"), ("texture file names are reduced to their base", "converter/unity2mqo.go")],
 ["every mutating file-system call of the run"])

prop("C10", "No file handle stays open after a load, save or conversion",
 "When a load, save, open/close of a package, or conversion returns, with or without an error, every file it opened has been closed. Repeating operations any number of times in one process therefore never exhausts handles.",
 ["fault_sequences", "histories", "inputs"], "every operation of the library, every failing step inside it, every sequence of operations",
 "A leaked handle is invisible to a test that runs a few operations and exits.",
 LOADERS + WRITERS + ["converter/unity2mqo.go", "converter/mqo2gltf.go", "cmd/modelconv/utils.go"], [("deferred closes", "all Load and Save functions")],
 ["open handles of the simulated kernel after each operation"])

prop("C11", "The same input and options always give byte-identical output",
 "Two runs of the same conversion on the same input files write byte-identical output files. Nothing in the output depends on map iteration order, hash seeds, the process, temporary names or what ran before.",
 ["schedules", "inputs", "configurations"], "every input, option set and every iteration order the runtime may choose for every map",
 "Map iteration order is random per run; a test sees a few orders of small maps and does not compare output bytes.",
 ["converter/mmd2mqo.go", "converter/mqo2gltf.go", "converter/glbanim.go", "converter/vrmconfig.go", "mqo/mqo_writer.go", "mqo/bone_plugin.go", "unity/unity_scene.go", "gltfutil/gltf_joint.go"], [("keys are sorted before they decide an order", "converter/*.go, mqo/mqo_writer.go"), ("slices keep the order of discovery", "unity/unity_scene.go, mqo/bone_plugin.go")],
 ["bytes of all output files"])

prop("C12", "Conversions in one process do not disturb each other",
 "Loads, conversions and saves of separate documents give the same results whether they run alone, one after another in one process, or interleaved at any point, also when several read the same input files. No shared state of the library carries information from one document or option set to another.",
 ["schedules", "histories", "inputs"], "every set of independent operations and every interleaving and order of them",
 "Tests run one operation at a time in a fresh process and compare nothing with a solo run.",
 ["converter/mqo2gltf.go", "converter/unity2mqo.go", "converter/mqo2mmd.go", "unity/unity_builtin.go", "mqo/mqo.go", "mmd/mmd.go", "vrm/vrm_extension.go"], [("a texture is saved under a temporary name of its own", "converter/unity2mqo.go saveTexrure"), ("all conversion state lives in per-call values", "converter package"), ("built-in meshes are generated per use", "unity/unity_builtin.go")],
 ["documents and bytes produced by each operation"])

prop("C13", "Every load and conversion finishes",
 "Loading or converting any file, valid, damaged, truncated or self-referential (cyclic prefabs, objects or models), on storage that delivers at least one byte per bounded number of attempts, ends within a number of steps and operations bounded by the size of its input and of the document it describes. Once faults stop it needs no outside help to finish.",
 ["inputs", "fault_sequences", "schedules"], "every input including cyclic references and long text in legacy encodings, every pattern of slow, short and interrupted I/O",
 "Tests use small, acyclic, well-formed inputs; a loop that never ends needs a particular shape or length.",
 LOADERS + ["converter/unity2mqo.go", "converter/fbx2mqo.go", "converter/gltf2mqo.go", "converter/vrmconfig.go", "fbx/fbx_document.go"], [("cycles are detected", "unity/unity_scene.go, converter/unity2mqo.go, converter/gltf2mqo.go, converter/vrmconfig.go, fbx/fbx_document.go"), ("loops stop at the first error", "mmd/base_parser.go, mqo/mqo_parser.go")],
 ["termination within the step bound"])

prop("C14", "A texture that cannot be read costs that texture, nothing else",
 "When texture files are missing, unreadable, truncated or corrupt, converting to .glb, .gltf or .vrm still succeeds, writes a structurally valid file (chunk sizes, buffer views and accessors inside their buffers, every index in range), and all geometry, skinning and other textures are those of an undisturbed run. An image that is embedded is byte for byte the source file, or decodes completely when it was re-encoded.",
 ["fault_sequences", "inputs"], "every model with textures, every subset of textures failing at every operation in every way",
 "No test converts a model with textures.",
 ["converter/mqo2gltf.go", "gltfutil/gltf_utils.go"], [("texture errors are logged and the texture skipped", "converter/mqo2gltf.go"), ("images embedded from complete reads only", "gltfutil/gltf_utils.go ToSingleFile")],
 ["structure and content of the written file"])

prop("C15", "Running a conversion again after a crash gives the complete result",
 "If a run is killed at any point (with only what it had written so far surviving) and the same command is run again, the second run's output files are identical to those of a run that was never interrupted. Leftovers of the killed run (partial outputs, companions, saved textures, temporary directories) never end up in, or shine through, the result.",
 ["crash_points", "histories", "fault_sequences"], "every conversion, every I/O step and byte within a write as the crash point, several crashes in a row, with partial writes",
 "No test stops a run in the middle.",
 ["converter/unity2mqo.go", "mqo/mqo_writer.go", "mmd/pmx_writer.go", "gltfutil/gltf_utils.go", "unity/unity_assets.go"], [("outputs are rewritten from scratch", "Save functions"), ("a saved texture appears under its name only when complete", "converter/unity2mqo.go saveTexrure")],
 ["all output files after the re-run"])

prop("C16", "A well-formed file loads, and the document holds what the file says",
 "Every well-formed .pmx, .pmd, .vmd, .mqo (with .mqx), .mqoz, binary or text .fbx, .gltf, .glb, .vrm, .unity scene and .unitypackage loads without an error, under every delivery of its bytes, directory order and map order, and the document holds what the file says: every vertex, face, UV, weight, material, texture name, bone, morph, physics element, key frame, node, attribute, object, transform, component, prefab instance and asset, with its value and in its order.",
 ["inputs", "schedules"], "every well-formed file: all index sizes, encodings, optional sections, versions, numbers of elements; every read schedule and iteration order",
 "Tests load one small file per format and look at a handful of fields, or only at whether there was an error.",
 LOADERS, [("record readers", "mmd/pmx_parser.go, mmd/pmd_parser.go, mmd/vmd_parser.go, mqo/mqo_parser.go, mqo/mqx.go, fbx/binary_parser.go, fbx/text_parser.go"), ("elements, prefab modifications and references", "unity/unity_scene.go, unity/unity_assets.go")],
 ["the loaded document, compared with the description the file was made from or with an independent decoder"])

prop("C17", "A conversion conserves the model, also through a chain of conversions",
 "When modelconv converts a well-formed model (.pmx, .pmd, .mqo, .mqoz, .fbx, .gltf, .glb, .vrm, a .unity scene or a .unitypackage) to .mqo, .mqoz, .pmx, .gltf, .glb or .vrm, alone or as a step of a chain of conversions, the output holds the same model. Materials: the same ones in the same order, with name, color (within 0.0005), opacity and texture (for glTF output: the bytes of the picture). Surfaces, per object (.pmx output and .pmx/.pmd input: as one) and material: the same corners at the same places (within 1e-5 of the model's size) with the same UVs (glTF output merges UVs nearer than 0.01), the same outline and orientation, the same number of triangles, every triangle. Morphs: the same displacement of every vertex. Bones: name, parent and position; each vertex has the same weights (when it has at most four that sum to 1). .mqo output also keeps the list of objects, their depth and whether they are hidden. The conventions are: Z is negated between MMD and the others; MMD input is scaled by 80 and .pmx output by 1/80 (-scale replaces the former), glTF output by 0.001; FBX axes and transforms and glTF node transforms are applied and FBX's V is flipped; -scale, -scaleX/Y/Z, -rot180 (implied by MMD to .vrm), -chparent, -hide, -hidemat, -morph and -alpha change just what they name; glTF and .pmx output leave out hidden objects, morph target objects and (glTF) materials named $MORPH:... or ...$IGNORE, and their faces. A glTF file converted to a glTF file (.gltf, .glb, .vrm) keeps everything: nodes, meshes with every attribute and morph target, skins, materials, textures and pictures, animations and extensions; -scale (and, where nodes are only translated, -scaleX/Y/Z and -rot180) moves the whole scene; a .vrm output loses the rotations of nodes without a mesh while every position and every skinned vertex stays where it was. A Unity scene gives: its objects in the order and depth of the scene, prefab instances in place of the prefab with their modifications (position, rotation, scale, name, active) applied, built-in meshes (cube, plane, quad, sphere, cylinder, capsule) and meshes of FBX files (models at the top of the file) with their transforms applied, times 1000 and Z negated, with the color, texture and UV scale and offset of their materials, hidden where the object is inactive or its renderer disabled; with -gltfExportLight its lights (place, direction, kind, color, intensity, range, cone) in glTF output. glTF output has one node per object with the objects' tree, unless -ignoreHierarchy; -reuseGeometry changes nothing that can be seen. Names of materials, objects, morphs and bones are taken to be unique. Normals (except glTF to glTF) and FBX to FBX are not covered. It holds for every delivery of the bytes, every map and directory order, with an older output in place, and after an attempt that faults or a crash ended.",
 ["inputs", "schedules", "histories", "faults"], "every well-formed model, every chain of conversions and options, every iteration order, every earlier failed attempt",
 "Tests convert one or two models and look at whether there was an error; wrong indexes, signs, scales, weights or a lost part of a model only show with particular shapes of input or in the next conversion.",
 ["converter/mmd2mqo.go", "converter/mqo2mmd.go", "converter/mqo2gltf.go", "converter/gltf2mqo.go", "converter/fbx2mqo.go", "converter/unity2mqo.go", "unity/unity_builtin.go", "unity/unity_material.go", "unity/unity_scene.go", "unity/unity_assets.go", "mqo/mqo.go", "cmd/modelconv/main.go"],
 [("converters", "converter/*.go Convert"), ("options", "cmd/modelconv/main.go")],
 ["the output file, decoded independently, compared with the expected scene"])

prop("C18", "The VRM part of a .vrm output is what the configuration says",
 "When modelconv converts a well-formed model that is not a VRM (.pmx, .pmd, .mqo, .mqoz, .fbx, .gltf, .glb) to .vrm, the configuration is the file given with -vrmconfig, else <input without extension>.vrmconfig.json if it exists, else, for MMD input, the preset mmd, else empty. A name without '.' and '/' is a preset: <name>.json in vrmconfig_presets beside the command, else the built-in one (mmd, mmd_en, mmd_ja). A configuration may name a preset in turn: its boneMappings, morphMappings, animationBoneGroups, colliderGroups and materialSettings come after those of the configuration. Node names are taken to be unique. The output's VRM extension then has: meta as configured. humanBones: for each bone the first mapping that finds a node counts (nodeNames in order, then nodeName; nodes with a mesh are passed over), with min, max, center and axisLength as given and useDefaultValues if given or none of min, max, center is; a mapping without any name leaves the bone out; required bones without mapping are found by a node of their own name. firstPersonBone: the node of a mapped head. blendShapeGroups: for each morph mapping a group with its name as name and presetName that binds, with weight 100, every mesh target of the targetName (or target targetIndex of the mesh of nodeName), with its materialValues; a mapping that finds nothing and has no values is left out; with exportAllMorph or -vrmExportAllMorph also one group per name for the targets not yet bound. secondaryAnimation: a collider group for each configured one whose node exists; a spring group for each configured one that finds a node, with its parameters, with the nodes its nodeNames (exact or with * and ?) match, in node order, leaving out nodes with a mesh and nodes of which it or a descendant already belongs to a group, and referring to the same collider groups as the configuration does; with -physics also spring groups for the topmost nodes below which all bodies move freely and collider groups for the static spheres and capsules. materials: as without configuration, but with forceUnlit, alphaMode and alpha (if > 0) of the setting with the material's name or else '*'; materialProperties has one entry per material, in order. Everything else in the file is as with an empty configuration. It holds for every delivery of the bytes, every map and directory order, with an older output in place, and after an attempt that faults or a crash ended.",
 ["inputs", "configurations", "schedules", "faults"], "every model and configuration, every iteration order, every earlier failed attempt",
 "The repository has no test of configurations; wrong precedence, indexes or a lost group only show with particular combinations of model, configuration and preset.",
 ["converter/vrmconfig.go", "cmd/modelconv/main.go", "vrm/vrm.go", "vrm/vrm_extension.go"],
 [("configuration", "converter/vrmconfig.go ApplyVRMConfig"), ("choice of the configuration", "cmd/modelconv/main.go")],
 ["the output file, decoded independently, compared with the configuration and with the output for an empty configuration"])

prop("C19", "A motion becomes the animation it describes",
 "When modelconv converts a model with bones (.pmx, .pmd, .mqo, .mqoz, .fbx) to .glb, .gltf or .vrm together with .vmd motion files (modelconv model a.vmd b.vmd out.glb), without -autotpose and scale options, the output is the same as without motions plus one animation per motion that moves anything, in the order of the arguments and with the motion's name. Each bone that the model and the motion both name has a rotation track if the motion turns it and a translation track if it moves it, with exactly the key frames of the motion in time order, at frame/30 seconds: the rotation (-x, -y, z, w), the translation the place of the node in the model relative to its parent plus (x, y, -z) * 0.08; with -rot180 (implied by MMD to .vrm) x and z of both change sign. Each mesh with morph targets that the motion names has a weights track with the weight (in 1/255 steps) of every one of its targets at every key frame of any of them, interpolated linearly where a target has no key of its own, 0 for targets the motion does not name. Interpolation is linear, key times increase and their accessor has min and max. Names of nodes and morphs are taken to be unique, weights to lie in 0 to 1. It holds for every delivery of the bytes, every map and directory order, with an older output in place, and after an attempt that faults or a crash ended.",
 ["inputs", "schedules", "faults"], "every model and motion, every iteration order, every earlier failed attempt",
 "The repository has no test of motions; lost keys, wrong axes or a wrong rest position only show with particular skeletons and key frames.",
 ["converter/glbanim.go", "mmd/vmd_parser.go", "cmd/modelconv/main.go"],
 [("animation", "converter/glbanim.go AddAnimationTpGlb"), ("key frames", "mmd/vmd_parser.go GetBoneChannels, GetMorphChannels")],
 ["the output file, decoded independently, compared with an independent decoding of the motion and with the output without motions"])

prop("C20", "Materials keep their look in glTF output",
 "When modelconv converts a well-formed model (.mqo, .mqoz, .pmx, .pmd, .fbx) to .glb, .gltf or .vrm, directly or by way of one or more .mqo or .mqoz files, or a .gltf, .glb or .vrm file to glTF by way of .mqo or .mqoz, each material in the output looks as the input says (numbers within 0.001; names of materials are taken to be unique). Base color and opacity: the material's. Metallic, roughness: Metallic and Roughness of a glTF shader (.mqo) or of the glTF input (default 1 each); otherwise and where the shader has none, the specular value (.fbx: SpecularColor.X * SpecularFactor; MMD: 0) and 0.4. Emission: the emission color, else the emission value on all channels (.fbx: EmissiveColor.X * EmissiveFactor * 0.1), divided by its largest channel if that is above 1. Double-sided: as in the input (FBX: no). Alpha mode: with a glTF shader or from glTF input OPAQUE, MASK or BLEND as it says, with its cutoff (default 0.5); otherwise BLEND if the opacity is below 0.99 or, with -detectAlphaTexture, if the part of the texture its faces show has transparent pixels (PNG and TGA), else OPAQUE. KHR_materials_unlit: for the Constant shader, for Extensions.Unlit, for a glTF shader with metallic 0 and roughness 1, else not (whether a glTF input's own unlit survives is open). KHR_materials_specular, clearcoat, sheen, ior, volume, transmission: exactly when the glTF shader switches them on, with its values (a value it does not have: glTF's default) and the textures of its mapping. -alpha NAME:blend|mask|opaque|number and -unlit NAME change just the alpha mode (opaque: also opacity 1; a number: the opacity, and BLEND for a glTF shader) and the lighting of these materials. Base texture, normal texture (bump) and the extensions' textures: the picture of the file named in the material (relative to the model's directory, or absolute), byte for byte if it is a .png, .jpg or .jpeg, no -texReCompress is given and it is not larger than -texBytesThreshold; otherwise re-encoded (JPEG as JPEG, all others as PNG), with the same size and (PNG) the same pixels unless -texResizeScale or -texResolutionLimit (which bounds the width) scale it; no texture where the file does not exist. It holds for every delivery of the bytes, every map and directory order, with an older output in place, and after an attempt that faults or a crash ended.",
 ["inputs", "schedules", "histories", "faults"], "every model, set of options and way to the output, every iteration order, every earlier failed attempt",
 "The repository has no test that looks at a material; a lost or mistranslated parameter only shows with the material that has it, or after a second conversion.",
 ["converter/mqo2gltf.go", "converter/gltf2mqo.go", "converter/fbx2mqo.go", "converter/mmd2mqo.go", "mqo/mqo_writer.go", "mqo/mqo_parser.go", "cmd/modelconv/main.go"],
 [("materials", "converter/mqo2gltf.go convertMaterial"), ("textures", "converter/mqo2gltf.go addTexture, scaleTexture, hasAlpha"), ("options", "cmd/modelconv/main.go")],
 ["the output file, decoded independently, compared with the material as the generator described it"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
