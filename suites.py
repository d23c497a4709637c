"""Which specification, driver domain and trace validator decide which property."""
SUITES = {
    "mqostore": dict(
        domain="mqostore", trace="MqoStoreTrace",
        models=[dict(module="MqoStoreGen", cfg="MqoStoreGen.cfg", cap_quick=3000)],
        random_quick=800, random_thorough=20000),
    "mmdfile": dict(
        domain="mmdfile", trace="MmdFileTrace",
        models=[dict(module="MmdFileGen", cfg="MmdFileGen.cfg")],
        random_quick=3000, random_thorough=60000),
    "fbxstore": dict(
        domain="fbxstore", trace="FbxStoreTrace",
        models=[dict(module="FbxStoreGen", cfg="FbxStoreGen.cfg", cap_quick=3000)],
        random_quick=1200, random_thorough=30000),
    "savefault": dict(
        domain="savefault", trace="SaveFaultTrace", cli=True,
        models=[dict(module="SaveFaultGen", cfg="SaveFaultGen.cfg")],
        random_quick=160, random_thorough=4000),
    "readfault": dict(
        domain="readfault", trace="ReadFaultTrace",
        models=[dict(module="ReadFaultGen", cfg="ReadFaultGen.cfg", cap_quick=1500)],
        random_quick=160, random_thorough=4000),
    "poly": dict(
        domain="poly", trace="PolyTrace", per=3000,
        models=[dict(module="PolyGen", cfg="PolyGen.cfg", cfg_thorough="PolyGenThorough.cfg")],
        random_quick=400, random_thorough=20000),
    "geo": dict(
        domain="geo", trace="GeoTrace",
        models=[dict(module="GeoGen", cfg="GeoGen.cfg", cfg_thorough="GeoGenThorough.cfg", always=("kind", "single"), cap_quick=9000, cap_thorough=60000)],
        random_quick=1500, random_thorough=40000),
    "mqoedit": dict(
        domain="mqoedit", trace="MqoEditTrace",
        models=[dict(module="MqoEditGen", cfg="MqoEditGen.cfg", cap_quick=5000)],
        random_quick=3000, random_thorough=60000),
    "mmdtomqo": dict(
        domain="mmdtomqo", trace="MmdToMqoTrace",
        models=[dict(module="MmdToMqoGen", cfg="MmdToMqoGen.cfg", cfg_thorough="MmdToMqoGenThorough.cfg", always=("kind", "chain"), cap_quick=4000)],
        random_quick=3000, random_thorough=60000),
    "mqotommd": dict(
        domain="mqotommd", trace="MqoToMmdTrace",
        models=[dict(module="MqoToMmdGen", cfg="MqoToMmdGen.cfg", cfg_thorough="MqoToMmdGenThorough.cfg", cap_quick=4000)],
        random_quick=3000, random_thorough=60000),
    "mqotogltf": dict(
        domain="mqotogltf", trace="MqoToGltfTrace",
        models=[dict(module="MqoToGltfGen", cfg="MqoToGltfGen.cfg", cfg_thorough="MqoToGltfGenThorough.cfg", cap_quick=3000)],
        random_quick=3000, random_thorough=60000),
    "gltftomqo": dict(
        domain="gltftomqo", trace="GltfToMqoTrace",
        models=[dict(module="GltfGen", cfg="GltfGen.cfg", cfg_thorough="GltfGenThorough.cfg", cap_quick=4000)],
        random_quick=4000, random_thorough=80000),
    "gltfedit": dict(
        domain="gltfedit", trace="GltfEditTrace",
        models=[dict(module="GltfEditGen", cfg="GltfEditGen.cfg", cfg_thorough="GltfEditGenThorough.cfg", cap_quick=2500, cap_thorough=20000)],
        random_quick=3500, random_thorough=60000),
    "fbxtomqo": dict(
        domain="fbxtomqo", trace="FbxToMqoTrace",
        models=[dict(module="FbxToMqoGen", cfg="FbxToMqoGen.cfg", cfg_thorough="FbxToMqoGenThorough.cfg", cap_quick=3500, cap_thorough=30000)],
        random_quick=3500, random_thorough=60000),
    "unityassets": dict(
        domain="unityassets", trace="UnityAssetsTrace",
        models=[dict(module="UnityAssetsGen", cfg="UnityAssetsGen.cfg", cfg_thorough="UnityAssetsGenThorough.cfg", cap_quick=5000)],
        random_quick=4000, random_thorough=60000),
    "unityscene": dict(
        domain="unityscene", trace="UnitySceneTrace",
        models=[dict(module="UnitySceneGen", cfg="UnitySceneGen.cfg", cfg_thorough="UnitySceneGenThorough.cfg", cap_quick=4000, cap_thorough=40000)],
        random_quick=4000, random_thorough=60000),
    "unitytomqo": dict(
        domain="unitytomqo", trace="UnityToMqoTrace", per=4000,
        models=[dict(module="UnityToMqoGen", cfg="UnityToMqoGen.cfg", cfg_thorough="UnityToMqoGenThorough.cfg", cap_quick=2500)],
        random_quick=3000, random_thorough=40000),
    "vrmconfig": dict(
        domain="vrmconfig", trace="VrmConfigTrace", per=4000,
        models=[dict(module="VrmConfigGen", cfg="VrmConfigGen.cfg", cfg_thorough="VrmConfigGenThorough.cfg", cap_quick=4000)],
        random_quick=5000, random_thorough=60000),
    "vmdanim": dict(
        domain="vmdanim", trace="VmdAnimTrace", per=4000,
        models=[dict(module="VmdAnimGen", cfg="VmdAnimGen.cfg", cfg_thorough="VmdAnimGenThorough.cfg", cap_quick=7000, cap_thorough=40000)],
        random_quick=4000, random_thorough=60000),
    "gltfextras": dict(
        domain="gltfextras", trace="GltfExtrasTrace", per=2500,
        models=[dict(module="GltfExtrasGen", cfg="GltfExtrasGen.cfg", cfg_thorough="GltfExtrasGenThorough.cfg", cap_quick=5000)],
        random_quick=4000, random_thorough=60000),
    "cli": dict(
        domain="cli", trace="CliTrace", cli=True, per=1500,
        models=[dict(module="CliGen", cfg="CliGen.cfg", cfg_thorough="CliGenThorough.cfg", cap_quick=1200)],
        random_quick=4000, random_thorough=30000),
    "repeat": dict(
        domain="repeat", trace="RepeatTrace", cli=True,
        models=[dict(module="CliGen", cfg="CliGen.cfg", cfg_thorough="CliGenThorough.cfg", cap_quick=150, cap_thorough=1000)],
        random_quick=1500, random_thorough=12000),
}
PROPS = {
    "C01": dict(suites=["mmdfile"], note="TLC explores every combination of reference width, text encoding, skinning type, bone flags and morph kind at element counts around each width boundary (field by field encode/decode); each state is a file driven through the real writer and reader (write, read, write again), plus seeded random models with arbitrary float bits. Bounded element counts (up to 65 537 for the widest boundary); trusts the driver's projection."),
    "C02": dict(suites=["mmdfile"], note="Same model as C01; an independent encoder in the driver writes PMX, PMD and VMD bytes for every shape and seeded random content, the real parser reads them, TLC compares the decoded values with the encoded ones."),
    "C03": dict(suites=["mqostore"], note="Exhaustive over edit/save/load histories of the bounded model (3 edits, 2 I/O steps, 10 archetypes); every sampled history and seeded random documents (arbitrary float32 values) run on the real code and validated step by step. Trusts the driver's projection."),
    "C04": dict(suites=["fbxstore"], note="Every small tree is written and parsed back by the model's stack machine for both encodings, and edit/save/load histories of documents are enumerated; sampled cases and seeded random trees are encoded independently (binary 7.4/7.5, compressed arrays, text) and read by the real parsers."),
    "C05": dict(suites=["mmdtomqo"], note="Exhaustive over how up to two (thorough: three) faces share vertices, where materials split and which vertices morphs move; sampled and seeded random models are converted by the real code and TLC compares the face soup, weights, morph displacements, bones and bodies."),
    "C06": dict(suites=["mqotommd"], note="Exhaustive over small documents of shared/split vertices over two materials and two objects in every role; plus seeded random documents with hierarchies, polygons, weights, morphs and physics. Surfaces are compared as sets of triangles with attributes, not as index lists."),
    "C07": dict(suites=["mqotogltf"], note="Model: vertex splitting, depth stacks and joint selection over all small documents; real conversions of sampled and seeded random documents with every converter option are decoded (independent accessor reader) and compared as triangle soups in the world frame; every index, accessor and range is checked."),
    "C08": dict(suites=["mqotogltf"], note="As C07; skins are evaluated (joint matrices times bind matrices) in the specification's integers (thousandths), morph targets by displacement per corner."),
    "C09": dict(suites=["gltftomqo"], note="Exhaustive over small node trees with quarter turns and scales, primitive modes and skins; seeded random files with all accessor layouts; TLC computes the world surface from the file and compares it with the imported document."),
    "C10": dict(suites=["fbxtomqo"], note="Exhaustive over small trees of models with turns and scales, all layer mappings and reference modes, clusters and shapes; seeded random scenes written as text and binary by an independent encoder."),
    "C11": dict(suites=["unityassets"], note="Explores opening an archive entry by entry with all orders, kinds and truncations of a small alphabet and histories of two sources; the real code runs in a scratch folder with its own TMPDIR, before/after listings of it and its surroundings are compared."),
    "C12": dict(suites=["unityscene"], note="Exhaustive over small files of objects, instances and modifications over three levels of prefabs; seeded random scenes written as YAML. TLC computes the expected hierarchy from the items."),
    "C13": dict(suites=["unitytomqo"], note="Exhaustive over a parent and a child with every combination of mesh, collider, turn, size, activity and option; seeded random scenes with materials, FBX meshes, lights and physics."),
    "C14": dict(suites=["vrmconfig"], note="Exhaustive over small models and configurations, one concern at a time (bones, expressions, springs, physics chains, collider references, materials, presets); seeded random combinations. Compared before and after storing the file."),
    "C15": dict(suites=["vmdanim"], note="Exhaustive over short motions (key order, duplicates, unknown names, shared expressions); seeded random motions on converted and on loaded models; keys, values and accessor bounds are compared by TLC."),
    "C16": dict(suites=["savefault"], note="Model: buffered writers over several files with a fault at every byte; real writers run against a writer failing at chosen offsets (every offset for small outputs), and under file size limits for the file based savers and the command line tool."),
    "C17": dict(suites=["readfault"], note="Model: a reader of sections with counts and sticky errors, cut at every byte; the real readers get every prefix of small files and sampled prefixes of larger ones, read failures and odd read sizes. Allocation from counts in the data is bounded by a memory limit of the driver."),
    "C18": dict(suites=["poly"], note="Every simple polygon on a small grid (up to 6 corners on 3x3 points) clipped ear by ear in every order; all are fed to the real code in several planes, starting corners and orientations. Integer area and overlap tests are exact."),
    "C19": dict(suites=["geo"], note="All rotations by multiples of 30 degrees in four orders and all two-step histories of the generators; seeded angles. Tolerances in thousandths."),
    "C20": dict(suites=["mqoedit"], note="Forests of objects with frames and skeletons in any list order under every history of up to two operations; seeded random documents with lattice transforms."),
    "C21": dict(suites=["mqoedit"], note="As C20, with names, identifiers, morphs and copies."),
    "C22": dict(suites=["cli"], note="885 (quick) requests: every option alone and with every other on a figure, every output format, every malformed request; seeded random requests over all inputs (MQO, MQOZ, PMX, glTF, FBX, Unity). The real binary built from /repo is executed in a scratch folder; the result is compared with the specification's edit of the input, and across formats with the library's conversion of the same edited document."),
    "C23": dict(suites=["gltfedit"], note="Histories of edits on small files with node trees, skins and plain meshes; seeded random files. The posed surface before and after is compared."),
    "C24": dict(suites=["repeat"], note="Each request is executed four times by the real binary and six times within one process; the specification demands equal bytes. Schedules (map orders) are the Go runtime's random ones, so a dependence on an order of few elements may be missed in one case; many cases repeat it."),
    "C25": dict(suites=["gltfextras"], note="Exhaustive over one or two switched extensions with every subset of their settings, two objects of every kind (mesh, light, placed, visible, nested) and two bodies on every target, each converted node by node in the model; seeded random documents with up to four materials, seven objects, four bones and six bodies."),
}
