SPECIFIED = {
"C01": ("the file as a header of reference widths and sections of records; the model encodes and decodes each reference field by field and the invariant says that no reference, and not 'none', is ever confused. A trace `build, write, read, write` is accepted iff the read model equals the built one and the second write gives the same bytes.", "15 s quick."),
"C02": ("the same layout from the other side: bytes written by an encoder of the driver that shares no code with the repository must decode to the values that were encoded, under every header.", "15 s quick."),
"C03": ("a document, an edit history and the two stores (plain file with plugin file, zip). `Save` may only make duplicate names unique in memory, `Load` must give `Norm(doc)`, the document without what the format cannot express; the invariants are `Load(Save(d)) = Norm(d)` and `Norm(Norm(d)) = Norm(d)` over every history of the model.", "15 s quick."),
"C04": ("node trees with typed attributes; a token stream per encoding and a stack machine that parses it; the object graph (objects, connections, properties) derived from a tree. Real trees, real dumps and real object graphs are compared with it.", "20 s quick."),
"C05": ("the model as a set of faces with corners carrying position, uv, weights and one displacement per morph; the converter's design (groups of faces touched by morphs, one object per group) is modelled and its law is that the soup, the weights and the displacements survive. Bodies and bones by name.", "20 s quick."),
"C06": ("the document as a soup of visible triangles with attributes, material order, bones, morph displacements and bodies, and what of it PMX can hold.", "20 s quick."),
"C07": ("the glTF file as a viewer sees it (`GltfView.tla`: node matrices, accessors, primitives, ranges) and the surface that the document draws; plus validity of every index and range.", "40 s quick."),
"C08": ("joint selection (largest four), normalised weights, bind matrices, and morph displacement per corner.", "40 s quick (shared run with C07)."),
"C09": ("the reverse: the world surface of a glTF file, computed in the specification from nodes, primitives and skins, against the imported document.", "30 s quick."),
"C10": ("an FBX scene (models with transforms, layers with mapping and reference modes, clusters, shapes, materials with templates) and the world polygons it describes.", "30 s quick."),
"C11": ("opening an archive entry by entry with names that may lead outside, faults at every entry, tables of assets, and histories of open, look up, close on two sources. Invariants: nothing written outside, nothing left after closing or failing, each asset found under exactly its own keys.", "25 s quick."),
"C12": ("files as lists of items (objects, instances, stripped entries, modifications), and the recursive expansion to a hierarchy with world transforms.", "35 s quick."),
"C13": ("the scene after C12 plus assets, and the document it must become: objects, world triangles of each built-in mesh and FBX mesh, materials, visibility, bodies, lights.", "40 s quick."),
"C14": ("assignment of humanoid bones, expressions, springs, colliders and materials as functions of model, configuration and preset; laws (at most one node per bone and bone per node, no bone in two chains) are invariants of the model.", "35 s quick."),
"C15": ("tracks as functions from frames to values; the animation is read through its accessors and compared key by key, values between keys on the lines.", "35 s quick."),
"C16": ("buffered writers over several files with a device that fails at any byte: reported success implies stored bytes = complete bytes; every file opened is closed.", "20 s quick."),
"C17": ("a reader over sections with counts and a sticky error, cut or failing at any byte: the outcome is an error or the complete result (open formats: a prefix of complete nodes), never a crash.", "15 s quick."),
"C18": ("every simple polygon on a grid, ear clipping in every order; exact integer areas. The real split is accepted iff it consists of n-2 triangles over its corners with the polygon's orientation whose areas add up and whose interiors are disjoint.", "40 s quick, 6.5 min thorough."),
"C19": ("rotations in integers of thousandths: Euler, quaternion and matrix forms, composition, inverse, decomposition.", "20 s quick."),
"C20": ("documents with object frames and skeletons, transforms, poses and straightening as actions.", "25 s quick."),
"C21": ("unique names and ids, clones, morph application, lookups, normals, splitting and flipping as actions on documents.", "25 s quick (same run as C20)."),
"C22": ("a request as a record of options, the pipeline of edits as a function of document and request (`Cli.tla`), and the failure conditions. The stored document must be the edited one, and the other formats must be the library's conversion of it; so C22 composes with C05-C10, C13-C15.", "20 s quick."),
"C23": ("edits of glTF files on the viewer's picture: what is drawn (posed), node places, animations and validity before and after.", "30 s quick."),
"C24": ("repetition: the outputs of all runs of one request are one value.", "50 s quick."),
"C25": ("shader switches as a table of extensions with their numbers, colours and pictures; the conversion of objects, lights and bodies as a walk that hangs one node after another (`GltfExtrasGen.tla`), with the invariants that parents leave their children where they are and that the finished file satisfies every requirement. Mutating the model (lights on the mesh's own node) violates it.", "35 s quick."),
}
