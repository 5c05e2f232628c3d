#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, pathlib
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
FM=["ssbh_lib/src/formats/%s.rs"%f for f in "hlpb matl modl mesh skel anim nlst nrpd nufx shdr".split()]
CORE=["ssbh_lib/src/lib.rs","ssbh_lib/src/arrays.rs","ssbh_lib/src/strings.rs","ssbh_lib/src/enums.rs","ssbh_lib/src/vectors.rs","ssbh_write/src/lib.rs","ssbh_write_derive/src/lib.rs"]

prop("L01","Every SSBH value survives a write followed by a read",
 "For every value of the ten SSBH formats (Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr) in every supported version, writing succeeds and reading the written bytes yields an equal value, bit for bit for floats, in the same version. Null and empty strings, pointers and arrays stay distinct, and every enum variant keeps its tag and payload. Writing the value that was read gives the same bytes again.",
 ["inputs"],"all values of the ten format types in their 16 versions: any nesting, array lengths including 0, null/non-null pointers, all enum variants, all scalar bit patterns, any text without an interior NUL",
 "The unit tests round-trip single hand-written primitives and no whole file of Hlpb, Modl, Nlst, Nrpd, Nufx, Shdr or Skel with mixed null/empty/non-empty members; the property ranges over all values of recursive types.",
 CORE+FM,[("SsbhWrite/BinRead derives over one set of struct definitions","ssbh_lib/src/formats/*.rs"),("relative pointer and array writers","ssbh_lib/src/lib.rs, ssbh_lib/src/arrays.rs")],
 ["<Format>::write / <Format>::read on an in-memory cursor"],
 [("data_ptr","absolute offset at which the next pointed-to item is placed","ssbh_lib/src/lib.rs:write_ssbh_file")])

prop("L02","Written files follow the SSBH layout rules byte for byte",
 "The bytes written for any SSBH value are exactly those prescribed by the layout rules: the HBSS header, magic and version, fields in declaration order with their fixed padding, and every pointed-to item placed in declaration order at the smallest offset that is past its container, past all data already placed, and a multiple of the item's alignment. Offsets are relative to the start of the offset field; null is offset 0, empty arrays have offset 0 and count 0, empty strings are N zero bytes for alignment N, and other strings end in one NUL. No two items overlap, gaps are zero, and trailing alignment (Mesh and Anim 2.1: file end to 8 bytes) is applied.",
 ["inputs"],"all values of the ten formats and their versions, as in L01",
 "Existing tests compare bytes of a few primitive containers; the offset of each item depends on everything written before it, so only a global placement rule evaluated over arbitrary values can decide it.",
 CORE+FM+["ssbh_offsets.md"],[("write_rel_ptr_aligned / round_up / write_relative_offset","ssbh_lib/src/lib.rs"),("array header and element writer","ssbh_lib/src/arrays.rs"),("CString writer","ssbh_lib/src/strings.rs"),("derived size_in_bytes/alignment","ssbh_write_derive/src/lib.rs")],
 ["bytes produced by <Format>::write"],
 [("data_ptr","next free absolute offset","write_ssbh_file")])

prop("L03","Reading follows the stored offsets wherever the data lies",
 "For every byte sequence that is a well-formed file of a supported type, reading yields exactly the value its offsets, counts, tags and NUL terminators denote, no matter in which order, with which gaps, at which alignment, or with how much sharing or overlap the pointed-to data is placed. Padding and unreferenced bytes do not influence the value, and the position after a pointer or array is unaffected by where its target was.",
 ["inputs"],"all byte sequences accepted by the format definitions, including layouts the library's own writer never produces (shared, reordered, overlapping, unaligned, gapped targets; offset 0 arrays; stale tags next to null pointers)",
 "Tests read bytes in the writer's own canonical layout (or one tiny example per type); layouts from other tools and edited files differ.",
 CORE+FM,[("RelPtr64/Ptr/SsbhArray/SsbhEnum64 BinRead save and restore the position","ssbh_lib/src/lib.rs, arrays.rs, enums.rs")],["<Format>::read(bytes)"])

prop("L04","Malformed input is rejected with an error and never crashes",
 "For every byte sequence, each read function of ssbh_lib (SsbhFile, the ten formats, MeshEx, Adj) returns a value or an error without panicking, looping, or allocating memory out of proportion to the input plus a fixed bound. A file whose referenced data is truncated, whose magic, version, enum or variant tag is unknown, or whose offsets overflow or leave the file is rejected with an error instead of yielding a value.",
 ["inputs"],"all byte sequences, in particular every truncation and every byte/offset/count/tag corruption of valid files",
 "Tests try two or three malformed arrays and pointers; crashes depend on which of thousands of fields is corrupted and where the file ends.",
 CORE+FM+["ssbh_lib/src/formats/meshex.rs","ssbh_lib/src/formats/adj.rs"],[("absolute_offset_checked","ssbh_lib/src/lib.rs"),("bounded initial capacity, short buffer check","ssbh_lib/src/arrays.rs"),("pre_assert on versions and tags","ssbh_lib/src/formats/*.rs")],["read functions: Ok / Err / panic, peak allocation"])

prop("L05","File type and version dispatch is exact and the APIs agree",
 "SsbhFile::read recognises exactly the ten magics and sixteen supported versions and yields the matching format and version; any other magic or version is an error. A typed read of a file of another SSBH type fails with InvalidSsbhType, a typed read of its own type yields the same value as SsbhFile::read, and SsbhFile::write produces the same bytes as the typed write. The version written is the version of the value.",
 ["inputs","configurations"],"all (magic, major, minor) triples, all pairs of file type and typed reader, all values of each format",
 "No test enumerates the magic/version matrix or compares the two APIs.",
 ["ssbh_lib/src/lib.rs"]+FM,[("Ssbh enum with magics, Versioned<T>, ssbh_read_write_impl!","ssbh_lib/src/lib.rs"),("Version impls","ssbh_lib/src/formats/*.rs")],["SsbhFile::read/write, <Format>::read/write"])

prop("L06","SsbhWrite layout composes for user-defined types",
 "For any type built from the provided primitives (integers, floats, tuples of arrays, Option, Vec, RelPtr64, absolute pointers, SsbhArray, SsbhByteBuffer, strings of any alignment, SsbhEnum64, derived structs and enums with pad_after, align_after, alignment and repr) writing at any position with any initial data pointer produces the layout-rule bytes, and the reported size equals the bytes occupied inline. The data pointer never moves backwards and never points inside written data, and reading the bytes back yields the value. An absolute pointer that does not fit its integer width is an error.",
 ["programs","inputs"],"all compositions of the provided building blocks and attributes, all values, all start positions and initial data pointers",
 "Tests cover each building block once with one value; nesting (arrays of pointers to arrays of strings, options inside structs, padded structs in arrays) and non-zero start positions are where size or alignment mistakes show.",
 CORE,[("SsbhWrite derive and blanket impls","ssbh_write/src/lib.rs, ssbh_write_derive/src/lib.rs"),("pointer/array/string/enum impls","ssbh_lib/src/*.rs")],["SsbhWrite::ssbh_write/write/size_in_bytes, BinRead"])

prop("L07","MeshEx and Adj files round-trip with their exact layout",
 "Any MeshEx whose entry and flag counts agree, and any Adj, is written in its documented layout (MeshEx: total length, counts, absolute offsets, 16-byte aligned tables, padded to 16 bytes; Adj: count, entries, then the index buffer to the end of the file) and reads back equal. A MeshEx whose entry and flag counts differ is refused with an error before any byte is written, and null tables read back as null.",
 ["inputs"],"all MeshEx and Adj values; all names including empty ones; all flag bit patterns",
 "One test each checks a single small value; offsets and counts interact with string lengths and table sizes.",
 ["ssbh_lib/src/formats/meshex.rs","ssbh_lib/src/formats/adj.rs","ssbh_lib/src/lib.rs"],[("impl SsbhWrite for MeshEx / Adj","ssbh_lib/src/formats/meshex.rs, adj.rs"),("Ptr64 read/write","ssbh_lib/src/lib.rs")],["MeshEx::write/read, Adj::write/read"])

prop("L08","Saving replaces a file completely; loading returns what was saved",
 "After write_to_file(path) succeeds for any supported type in ssbh_lib or ssbh_data, the file holds exactly the bytes write() produces, whatever it held before, and from_file(path) returns what read() returns for those bytes. A write_to_file whose value cannot be converted or serialized returns an error and leaves the file at that path, existing or not, as it was; other files are never touched. Loading never modifies a file.",
 ["histories"],"all sequences of save, failed save and load operations of any types over a set of paths, with longer or shorter previous contents",
 "Tests never write files; stale tails and lost files need a history of saves of different sizes and failures.",
 ["ssbh_lib/src/lib.rs","ssbh_data/src/lib.rs"],[("write_to_file / write_buffered / from_file","ssbh_lib/src/lib.rs"),("SsbhData impl macros","ssbh_data/src/lib.rs")],["file contents after each operation, results of from_file"],
 [("files","contents of each path","the file system directory used")])

prop("L09","JSON conversion is lossless in both directions",
 "For every value of the ten SSBH formats, MeshEx and Adj with finite floats and UTF-8 text, converting the file to JSON and back with ssbh_lib_json reproduces the binary file byte for byte. For Mesh, Skel, Anim, Modl, Matl, Hlpb, MeshEx and Adj data, the JSON of ssbh_data_json read back is an equal data value, and the converted-back binary equals the one ssbh_data itself writes for it. The JSON shows the values: fields by name, numbers, texts, byte buffers as hexadecimal digits, enumeration variants by name. The tools choose what to do from the extension of the input file, write to the given path or else to the documented default one, and change no other file; a file they cannot convert makes no output.",
 ["inputs"],"all values with finite floats and UTF-8 text; both command line tools; explicit and default output paths",
 "No test runs either tool; lossy fields (hex buffers, skipped flags, transparent wrappers) are value dependent.",
 ["ssbh_lib_json/src/main.rs","ssbh_data_json/src/main.rs"]+CORE[:3]+FM,[("serde derives incl. serde_hex byte buffers and CString","ssbh_lib/src/arrays.rs, strings.rs"),("main of both tools","ssbh_lib_json/src/main.rs, ssbh_data_json/src/main.rs")],["output files of the command line tools"])

prop("D01","Mesh data survives saving in every supported mesh version",
 "For every valid MeshData and target version 1.8, 1.9 or 1.10, saving and loading preserves objects in order with name, subindex, parent bone, sort bias, depth flags, vertex indices, the number, order and vertex count of all attributes, and bone influences. Attribute values are preserved exactly where the version stores them as floats and to the nearest representable value where it stores half floats or bytes; versions that cannot store a component type or attribute change it only in the documented way. Attribute names are preserved where the version stores names and are the standard names otherwise.",
 ["inputs"],"all valid MeshData: any number of objects, attributes per usage, 2/3/4 component vectors, any vertex count and indices (16 and 32 bit), all three versions",
 "Tests use a handful of one- or two-vertex objects; offsets and strides are accumulated over all previous objects and attributes.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/mesh_data/mesh_attributes.rs","ssbh_data/src/mesh_data/vector_data.rs"],[("create_mesh_inner / create_attributes_* / read_attribute_data","ssbh_data/src/mesh_data.rs")],["MeshData::write then MeshData::read"])

prop("D02","Invalid mesh data is refused with the matching error",
 "Saving MeshData fails exactly when two objects share name and subindex, the version is unsupported, an object's index count is not a multiple of three, an object's attributes have different vertex counts, a vertex index is not below the object's vertex count, or (1.10) a weight's vertex index does not fit 16 bits, and the error names that condition. Otherwise saving succeeds.",
 ["inputs"],"all MeshData values, valid or violating any combination of the conditions at any object or attribute position",
 "Tests exercise each error once in the first object.",
 ["ssbh_data/src/mesh_data.rs"],[("create_mesh validation","ssbh_data/src/mesh_data.rs")],["MeshData::write / Mesh::try_from result"])

prop("D03","Mesh buffers are laid out disjointly and addressed consistently",
 "In the Mesh produced for any valid MeshData, each object's vertex data occupies disjoint ranges of the vertex buffers given by its buffer offsets, strides and vertex count, attributes tile each vertex's stride without overlap in the fixed order, index data occupies disjoint ranges of the index buffer as 16-bit elements exactly when all indices fit, and every recorded size, offset, count and flag equals what the buffers contain. Positions, normals, binormals and tangents are in buffer 0 and texture coordinates and colors in buffer 1, encoded in the data type recorded for the attribute.",
 ["inputs"],"all valid MeshData and versions",
 "Offsets are running sums over all objects; tests check one object.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/mesh_data/mesh_attributes.rs"],[("create_mesh_objects, write_attributes, add_attributes","ssbh_data/src/mesh_data.rs, mesh_attributes.rs")],["fields of the Mesh produced by TryFrom<&MeshData>"])

prop("D04","Mesh bounding volumes enclose their vertices",
 "For every MeshData, each object's bounding box is exactly the componentwise minimum and maximum of its first position attribute, its oriented box has the box's centre and half extents with identity axes, and its bounding sphere contains every position up to rounding. The mesh's overall volumes do the same for the positions of all objects, and objects without positions contribute nothing.",
 ["inputs"],"all MeshData with finite positions",
 "Tests check no sphere or box of multi-object meshes.",
 ["ssbh_data/src/mesh_data.rs"],[("calculate_bounding_info, calculate_bounding_box","ssbh_data/src/mesh_data.rs")],["bounding_info of the produced Mesh and its objects"])

prop("D05","Vertex skinning weights reach the right object, bone and vertex",
 "Saving and loading MeshData preserves every object's bone influences in order, with each (vertex index, weight) pair exact, for any number of objects including objects sharing a name with different subindices. The produced rigging groups are sorted by name and subindex, one per object, their maximum influence count is the largest number of influences on any one vertex (at most 255, the greatest it can hold), and the object's skinning flag is set exactly when it has influences.",
 ["inputs"],"all MeshData with arbitrary bone influences",
 "Tests check one object with one bone; matching by (name, subindex) only matters with several.",
 ["ssbh_data/src/mesh_data.rs"],[("create_rigging_buffers, read_rigging_data, calculate_max_influences","ssbh_data/src/mesh_data.rs")],["rigging_buffers of the Mesh; bone_influences after read"])

prop("D06","Animation data survives saving within the documented precision",
 "For every valid AnimData saved as 2.0 or 2.1 and loaded, the version, final frame index, groups, nodes, tracks, their names, types, order, transform flags and compensate-scale settings are preserved. Booleans and pattern indices are exact, uncompressed and constant values are bit exact, and every compressed finite float lies between its track's least and greatest value with an error of at most five of the 2^24 - 1 quantisation steps between them (one for truncation, four for single precision rounding), and the w of a rotation completes x, y, z to length one with its sign kept. A track whose frames are all equal may load as a single frame; otherwise the frame count is preserved.",
 ["inputs"],"all valid AnimData: any hierarchy, all six track types, any frame counts, any finite values",
 "Tests check single tracks of two or three frames.",
 ["ssbh_data/src/anim_data.rs","ssbh_data/src/anim_data/buffers.rs","ssbh_data/src/anim_data/compression.rs"],[("create_anim / create_track_data / read_track_values","ssbh_data/src/anim_data*")],["AnimData::write then AnimData::read"])

prop("D07","Animation buffers are tiled exactly and addressed consistently",
 "In the Anim produced for any valid AnimData, the data ranges of the tracks in depth first order tile the buffer without gap or overlap, each track's recorded frame count, type, compression type and transform flags match its data, tracks of at most one frame are stored as constants, and longer tracks use compression only where the documented size rule allows it. Compressed track headers record their own sizes, bit counts, ranges and default values consistently with the bit stream that follows.",
 ["inputs"],"all valid AnimData",
 "Offsets accumulate over all groups, nodes and tracks; tests check one or two tracks.",
 ["ssbh_data/src/anim_data.rs","ssbh_data/src/anim_data/buffers.rs","ssbh_data/src/anim_data/compression.rs"],[("create_track_data, write_track_values, write_compressed","ssbh_data/src/anim_data*")],["fields and buffer of the Anim produced by TryFrom<AnimData>"])

prop("D08","Animation track decoding is exact for any stored bit layout",
 "For any track buffer produced by any writer, with any per-component bit counts, ranges, defaults, transform flags and any of the four storage types, decoding yields exactly the values the format defines: linear interpolation between minimum and maximum by the stored integer, defaults for components without bits, reconstruction of the rotation's w with its sign bit, and flags exposed as stored. Buffers too short for the recorded frames, ranges outside the buffer, unsupported bit counts or malformed headers give an error and never a panic.",
 ["inputs"],"all buffers, frame counts, track types, compression types and flags",
 "Tests decode a few buffers captured from game files, all written by one tool with 24-bit settings.",
 ["ssbh_data/src/anim_data/buffers.rs","ssbh_data/src/anim_data/compression.rs","ssbh_data/src/anim_data/bitutils.rs"],[("read_track_values, read_compressed, Compression::unpack","ssbh_data/src/anim_data/*")],["AnimData::try_from(Anim)"])

prop("D09","Invalid animation data is refused and file structure is checked",
 "Saving AnimData fails exactly when the version is not supported for writing or the final frame index is negative or too small for the longest track, and the error names the condition; otherwise it succeeds. Loading 1.2 and 2.x files either yields the groups, nodes and tracks the file describes or an error, for any indices, offsets, sizes and names stored.",
 ["inputs"],"all AnimData values; all Anim values of any version",
 "Tests check one instance of each error.",
 ["ssbh_data/src/anim_data.rs"],[("create_anim validation; read_anim_groups*","ssbh_data/src/anim_data.rs")],["AnimData::write result; AnimData::try_from result"])

prop("D10","Skeleton transforms compose along the bone hierarchy",
 "For every skeleton without cycles, each saved world transform is the product of the parent's world transform and the bone's own transform, each inverse transform is the inverse up to rounding, bones keep order, name, flags, parent and local transform across save and load, and a bone whose parent is absent counts as a root. A hierarchy with a cycle, a parent whose index does not fit the file or a version other than 1.0 is refused with an error, and converting a world transform to one relative to a parent undoes that composition.",
 ["inputs"],"all bone hierarchies (any order of parents and children, forests, cycles of any length) and all invertible transforms",
 "Tests check chains of two or three bones listed parent first.",
 ["ssbh_data/src/skel_data.rs"],[("calculate_world_transform, create_skel, calculate_relative_transform","ssbh_data/src/skel_data.rs")],["Skel produced by TryFrom<&SkelData>; SkelData read back; pub fns"])

prop("D11","Material data survives saving and loading",
 "For every MatlData, saving as version 1.6 and loading preserves every material label, shader label and every blend state, float, boolean, vector, rasterizer state, sampler, texture and UV transform parameter with its id, order within its kind and value. Loading 1.5 and 1.6 files distributes every parameter to its kind by its stored type, and saving as 1.5 preserves everything a 1.5 file can represent; fields of the file that the data does not carry get their customary constants. Unsupported versions are refused.",
 ["inputs"],"all MatlData; all Matl values of both versions",
 "Tests convert one or two parameters each way.",
 ["ssbh_data/src/matl_data.rs"],[("TryFrom/From conversions between Matl and MatlData","ssbh_data/src/matl_data.rs")],["MatlData::write/read, MatlData::try_from(Matl)"])

prop("D12","Model and helper bone data survive saving and loading",
 "Saving and loading any ModlData or HlpbData preserves every string, entry, constraint and number in order, and the saved Hlpb's constraint indices and types list every aim constraint and then every orient constraint exactly once. Null strings in a file load as empty text and an absent animation file name stays absent.",
 ["inputs"],"all ModlData and HlpbData; all Modl and Hlpb values",
 "Tests convert one entry each.",
 ["ssbh_data/src/modl_data.rs","ssbh_data/src/hlpb_data.rs"],[("From conversions","ssbh_data/src/modl_data.rs, hlpb_data.rs")],["ModlData/HlpbData write/read"])

prop("D13","Adjacency data addresses and describes the right faces",
 "Saving and loading AdjData preserves each entry's object index and adjacency list for any number of entries of any lengths, and entry offsets outside the index buffer are an error; object indices or buffer offsets that do not fit the file's 32 bit fields are refused, never wrapped. For any triangle list, the generated adjacency has exactly 18 indices per vertex: for each vertex at the same position (in vertex order, the vertex itself included), for each face containing that vertex in face order, the face's two other vertices starting after it, padded with -1 or truncated to 18 (vertex indices below 32768).",
 ["inputs"],"all AdjData; all Adj values; all triangle lists and positions",
 "Tests check a few triangles and two entries.",
 ["ssbh_data/src/adj_data.rs"],[("TryFrom/From conversions, triangle_adjacency","ssbh_data/src/adj_data.rs")],["AdjData::write/read, AdjEntryData::from_triangle_faces"])

prop("D14","MeshEx data keeps groups, entries and flags aligned",
 "Saving and loading MeshExData preserves every group's sphere, names and entry flags (draw model, cast shadow) in order for any group sizes, and the saved file has one entry and one flag per group member with the group's index, and its overall sphere encloses every group's sphere. Building it from mesh objects yields one group per run of objects with the same name, with as many entries as objects in the run, the name without its tag suffix, and a sphere enclosing the group's vertices.",
 ["inputs"],"all MeshExData; all lists of mesh objects",
 "Tests use two or three objects.",
 ["ssbh_data/src/meshex_data.rs"],[("From conversions, from_mesh_objects, strip_mesh_name_tags","ssbh_data/src/meshex_data.rs")],["MeshExData::write/read/from_mesh_objects"])

prop("D15","High level readers never crash on files the low level reader accepts",
 "For every value that ssbh_lib can read, converting it to its ssbh_data type returns data or an error and never panics, overflows or allocates out of proportion to the file.",
 ["inputs"],"all Mesh, Anim, Skel, Matl, Modl, Hlpb, Adj, MeshEx and Shdr values, including inconsistent counts, offsets, strides, sizes and indices",
 "Tests try a few hand-picked inconsistent fields; each accessor combination can fail.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/anim_data.rs","ssbh_data/src/anim_data/buffers.rs","ssbh_data/src/adj_data.rs","ssbh_data/src/skel_data.rs","ssbh_data/src/shdr_data.rs","ssbh_data/src/meshex_data.rs"],[("TryFrom/From conversions from ssbh_lib types","ssbh_data/src/*.rs")],["<Data>::try_from / read: Ok, Err, panic, allocation"])

prop("D16","Vertex transforms apply the matrix to every element and nothing else",
 "transform_points multiplies each element, extended with w = 1, and transform_vectors each element, extended with w = 0, by the given matrix, keeps the number of elements and components, and leaves a fourth component as it was. The conversions of vector and matrix types to and from arrays, and their componentwise minimum, maximum, identity and extension helpers are exact; vertex counts are the common number of elements of an object's attributes or an error. Generated smooth normals are the normalized sums of the normals of the faces around each vertex, and generated tangents have one element per vertex: the normalized sum of the directions of growing u of its faces, with the sign (1 or -1) of the frame it forms with the direction of growing v and the normal.",
 ["inputs"],"all vectors of 2, 3 or 4 components and all 4x4 matrices",
 "Tests check one or two matrices.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/mesh_data/vector_data.rs","ssbh_lib/src/vectors.rs"],[("transform_points, transform_vectors, VectorData, Matrix4x4","ssbh_data/src/mesh_data.rs, ssbh_lib/src/vectors.rs")],["return values"])

prop("D17","Saving is deterministic and repeated save/load is stable",
 "For every MeshData, AnimData, MatlData, SkelData, HlpbData, ModlData, AdjData and MeshExData, saving is a function of the value alone: the same value always produces the same bytes, also after other values were saved. Loading a saved file, saving it again and loading it again yields the same value as the first load, as long as it has vertices for its indices (compressed animation floats: within one more quantisation step).",
 ["inputs","histories"],"all values of the eight data types; any number of save/load generations",
 "Tests compare a single generation; drift or dependence on hash order, allocation or previous calls needs repetition over many values.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/anim_data.rs","ssbh_data/src/matl_data.rs","ssbh_data/src/lib.rs"],[("TryFrom conversions and writers","ssbh_data/src/*.rs")],["bytes of repeated writes; values of successive generations"])

prop("D18","Shader metadata is extracted from where the file says it is",
 "For every Shdr file with well-formed shader binaries, ShdrData lists each shader with its name, type and the buffers, uniforms, inputs and outputs stored in its binary, with each name taken from the string section at the recorded position and each number and data type as stored. Loading never modifies the file's data and the order of shaders and of metadata entries is the stored order. A binary that refers to places outside of itself or to unknown data types is an error.",
 ["inputs"],"all Shdr values whose binaries contain any numbers of buffers, uniforms and attributes with any names at any positions",
 "There are no tests for it.",
 ["ssbh_data/src/shdr_data.rs"],[("MetaData::new, ShaderBinary::read","ssbh_data/src/shdr_data.rs")],["ShdrData::try_from(Shdr)"])
prop("D19","Mesh data is decoded from wherever the file stores it",
 "For every Mesh file of version 1.8, 1.9 or 1.10, whatever its buffer indices, offsets, strides, data types and order, loading yields for each object exactly the indices and attribute values stored at the recorded places, attributes grouped by usage in stored order with the stored (or, for 1.8, standard) name, and the influences of every rigging group with the object's name and subindex. Data outside of its buffer, a missing buffer, a zero stride for a nonempty attribute or a missing bone name is an error and never a panic.",
 ["inputs"],"all Mesh values, written by this library or not",
 "The tests read meshes written in one layout; offsets, strides, sharing, interleaving and damaged counts of other writers are unbounded.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/mesh_data/mesh_attributes.rs","ssbh_data/src/mesh_data/vector_data.rs"],[("read_mesh_objects, read_attribute_data, calculate_offset_stride, read_vertex_indices, read_rigging_data","ssbh_data/src/mesh_data.rs"),("VectorData::read","ssbh_data/src/mesh_data/vector_data.rs")],["MeshData::try_from(&Mesh)"])

prop("D20","Texts, names, lists, vectors and comparison convert without change",
 "For every byte string, a CString or SsbhString made from it holds the bytes before its first NUL, shows them as text if and only if they are UTF-8 and as the empty text otherwise (as does a null offset), however it was made. For every named enumeration (material parameters and states, group types, billboard types, render pass formats), number, name and variant correspond one to one, every variant is listed once, and other numbers and names belong to none. Lists, buffers and offsets made from values hold exactly these values. Vectors and matrices convert to and from tuples and arrays without change, in column order, and componentwise minimum and maximum are exact. Comparing two values of any format tells whether they are equal in every part, in both directions, and a clone equals its original.",
 ["inputs"],"all byte strings; all 64 bit numbers and all names; all vectors and matrices; all pairs of values of the ten formats and their versions",
 "Tests show one text, two vectors and no comparison of unequal values; the equality of two values depends on every one of hundreds of fields, and UTF-8 on every boundary of its ranges.",
 ["ssbh_lib/src/strings.rs","ssbh_lib/src/arrays.rs","ssbh_lib/src/enums.rs","ssbh_lib/src/vectors.rs","ssbh_lib/src/lib.rs"]+FM,[("CString, SsbhStringN conversions","ssbh_lib/src/strings.rs"),("PartialEq and Clone of SsbhArray, SsbhEnum64, RelPtr64, Ptr","ssbh_lib/src/arrays.rs, enums.rs, lib.rs"),("FromRepr, Display, EnumString, EnumIter of the named enumerations","ssbh_lib/src/formats/{matl,anim,skel,nrpd}.rs")],["return values of the conversions and comparisons"])

prop("L10","The read/write test of a folder reports exactly the files that do not survive",
 "For every folder, ssbh_test ends normally and names, each exactly once, the files of a known type anywhere below it that cannot be read, that cannot be written, or whose contents differ from what is written for their value, with the reason, and no other file. It changes no file, and neither a damaged file nor a directory keeps the other files from being tested.",
 ["inputs","schedules"],"all folders: any number, nesting, names and contents of files of the twelve known and of other extensions; any order in which the workers take them",
 "There is no test for the tool; its verdict depends on arbitrary contents, and one bad file among many may hide or stop the rest.",
 ["ssbh_test/src/main.rs","ssbh_lib/src/lib.rs"],[("main, check_read_write_ssbh, check_read_write_meshex, check_read_write_adj","ssbh_test/src/main.rs")],["standard output and exit status of ssbh_test; the folder before and after"])

prop("L11","Slow, interrupted and failing streams lose nothing and report every failure",
 "For every value of every type that can be read and written, the outcome depends only on what the stream holds, not on how it delivers it. A stream that moves only part of what is asked for, or interrupts a transfer, yields the same bytes and the same value as an undisturbed one. When an operation of the stream fails or a write takes no bytes, writing returns an error; when it fails for good, so does reading, and never does either return something else or panic. SSBH files can be written behind and read from behind other data (at a multiple of 16): that data is not touched, and the bytes and the value are the same as at the start. Saving to a file that cannot take the data is reported as an error.",
 ["inputs","fault_sequences","histories"],"all values of SsbhFile, the ten formats, MeshEx, Adj and the eight ssbh_data types; all streams: any sizes of partial transfers, any interruptions, a failure at any operation (for good or once), any contents before the position",
 "Tests write to and read from an in-memory vector, which never transfers less than asked and never fails.",
 CORE+["ssbh_lib/src/formats/meshex.rs","ssbh_lib/src/formats/adj.rs","ssbh_data/src/lib.rs"],[("write_all / read_exact and ? on every operation","ssbh_lib/src/lib.rs, arrays.rs, strings.rs, enums.rs, ssbh_write/src/lib.rs"),("write_buffered","ssbh_lib/src/lib.rs"),("SsbhData::read/write/write_to_file","ssbh_data/src/lib.rs")],["results of read, write and write_to_file; the contents of the stream"],
 [("stream position and contents","where the next transfer goes and what was transferred","any Read/Write/Seek")])

prop("L12","A JSON document becomes exactly the file it shows, or none",
 "For every JSON text given to ssbh_lib_json as an SSBH, MeshEx or Adj document, the tool either makes a file of the named format and version that reads as exactly the values the document shows, or makes no file and leaves the folder as it was. Objects' fields are found by name in any order, spacing and escapes are free, and fields that do not exist are ignored. A text that is not JSON, a missing required field, a number that does not fit its field, an unknown format, version or variant, malformed hexadecimal data, or a text with a NUL is refused and never read as something else.",
 ["inputs"],"all JSON texts, in particular every edit of every document the tool makes: fields removed, repeated, renamed or reordered, numbers at and beyond the limits of their types, other texts, lists and variants",
 "The tests of the tools only parse their arguments; documents are edited by hand by users, in any way.",
 ["ssbh_lib_json/src/main.rs","ssbh_lib/src/strings.rs","ssbh_lib/src/arrays.rs","ssbh_lib/src/lib.rs"]+FM,[("main","ssbh_lib_json/src/main.rs"),("Deserialize of SsbhArray, SsbhByteBuffer, SsbhString, CString, enums","ssbh_lib/src/arrays.rs, strings.rs, enums.rs, lib.rs")],["the file ssbh_lib_json makes of a document, or that there is none"])

prop("D21","JSON documents of the data types show the whole value and are never misread",
 "For every value of the eight data types, its JSON document shows every part of it, and reading the document yields the value again. A document is read in any field order, spacing and escapes and whatever further fields it has. A field that may be left out takes its documented default (no uv transforms, the default of each sampler and blend state field, the default anisotropy for null, none for optional fields). Everything else, such as a missing required field, a number that does not fit, an unknown name of a parameter, variant or version, or a value of another shape, is refused. Writing the read value again shows the same data.",
 ["inputs"],"all finite values of the eight data types and all edits of their JSON documents",
 "There are no tests of the documents; whether each of some hundred fields is required, optional or defaulted matters only for documents nobody sampled.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/matl_data.rs","ssbh_data/src/anim_data.rs","ssbh_data/src/skel_data.rs","ssbh_data/src/modl_data.rs","ssbh_data/src/hlpb_data.rs","ssbh_data/src/adj_data.rs","ssbh_data/src/meshex_data.rs"],[("Serialize, Deserialize and serde(default) of the data types","ssbh_data/src/*.rs")],["serde_json::to_string and from_str of the eight data types"])

prop("D22","Saving data never crashes, and is refused only for the documented reasons",
 "Saving any value of the eight data types, however damaged or unusual (not-a-number and infinite floats, lists of unequal lengths, indices out of range, parents that form cycles or do not exist, every version number), never panics, never hangs and uses memory in proportion. It is refused exactly for the documented reasons (an unsupported version, an invalid mesh object, a cyclic skeleton, an invalid animation, an object index that does not fit) and then nothing has been written. Otherwise the file can be read with the format and version of the data, and loaded as data again. Saving a value and converting it first do the same.",
 ["inputs"],"all values of the eight data types and all versions",
 "The tests save a few well formed values; the values that crash, hang or are wrongly refused are the combinations nobody thought of.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/mesh_data/mesh_attributes.rs","ssbh_data/src/anim_data.rs","ssbh_data/src/anim_data/compression.rs","ssbh_data/src/skel_data.rs","ssbh_data/src/matl_data.rs","ssbh_data/src/modl_data.rs","ssbh_data/src/hlpb_data.rs","ssbh_data/src/adj_data.rs","ssbh_data/src/meshex_data.rs","ssbh_data/src/lib.rs"],[("SsbhData::write and the TryFrom/From conversions of the data types","ssbh_data/src/lib.rs")],["SsbhData::write of the eight data types","TryFrom/From of data to ssbh_lib types"])

prop("D23","What the data types leave out is saved with its usual values and never matters",
 "Saving mesh, skel, anim, matl, hlpb and meshex data fills in what the data types do not represent with the usual values: empty model and animation names, mesh unk1 0, three indices per face (unk2 3, unk8 4), the rigging flag 1, the bone flag 1, anim unk1 1, unk2 3 and empty unk_data, zeros in the unused fields of aim constraints, the fixed unk values of samplers, blend and rasterizer states, the meshex name All, entry vector (0, 1, 0), unk1 0 and no further entry flags. Two files that differ only in such parts, in stored inverses and world transforms, in bounding volumes or in constraint lists load as equal data and are saved as the same bytes, after any number of loads and saves.",
 ["inputs","histories"],"all values of the six data types, all values of the parts not represented, histories of edits by other programs and saves",
 "The tests compare the conversion of one or two values per type; that a hidden part of a file leaks into what is saved shows only for files that have unusual values there.",
 ["ssbh_data/src/mesh_data.rs","ssbh_data/src/anim_data.rs","ssbh_data/src/skel_data.rs","ssbh_data/src/matl_data.rs","ssbh_data/src/hlpb_data.rs","ssbh_data/src/meshex_data.rs"],[("From/TryFrom conversions between data and ssbh_lib types","ssbh_data/src/*.rs")],["SsbhData::write and read of the six data types","ssbh_lib values of the saved files"])

out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
for p in P: assert len(p["title"])<=80,p["id"]
out.write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
