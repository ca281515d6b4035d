#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
ED = "spine_json_lib/spine_animation_editor.py"
AD = "spine_json_lib/data/spine_anim_data.py"
BT = "spine_json_lib/data/data_types/base_type.py"
DT = "spine_json_lib/data/data_types/"
SV = "spine_json_lib/data/spine_version_type.py"
UT = "spine_json_lib/utils.py"
DG = "spine_json_lib/graph/dagraph.py"
GV = "spine_json_lib/graph/graph_validator.py"
SN = "spine_json_lib/graph/spamnode.py"
NO = "spine_json_lib/deserializer/spine_nodes.py"
GC = "spine_json_lib/spine_graph_container.py"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


p("C01", "Loading and exporting a document keeps every value",
  "Loading any supported Spine 3.8 (or later) document and exporting it without editing yields a document with the same meaning: every bone, slot, skin attachment, constraint, event, animation timeline and keyframe attribute has the value it had, lists keep their order and the skeleton header is unchanged. An attribute may be left out of the export only when its value is the one the Spine 3.8 format assumes for a missing attribute, and nothing that was not in the input may appear except such assumed values.",
  ["inputs"], "every supported document: any combination of attributes, values (including values that are the default of some other attribute), timelines, attachment types, versions >= 3.8",
  "The tests compare one 9 KB example byte for byte; most attribute/value/type combinations (curves, linked meshes, constraints, events, two-colour timelines, values equal to another type's default) never occur in it.",
  [BT, AD, DT + "bone.py", DT + "slot.py", DT + "skin.py", DT + "ik.py", DT + "path.py", DT + "transform.py", DT + "deform.py", DT + "events.py", DT + "draworder.py", DT + "animation.py"],
  [("per-type default tables and omission of default values", BT + " to_spine_data_ignoring_default_values / set_default_values_from_version"), ("recursive traversal", BT + " traverse_spine_data"), ("attachment dispatch by type", DT + "skin.py parse_skin_attachment_data")],
  [("DEFAULT_VALUES / SPINE_3_8_DEFAULT_VALUES", "values that may be omitted on export", DT)],
  ["SpineAnimationEditor(json).to_json_data()"])

p("C02", "Every export can be loaded again and is a fixed point",
  "After any sequence of edits (including none, and including edits that leave no slots, skins content or animations), the exported document can be loaded by the library again. Exporting the reloaded document gives exactly the same document, and its image references name the same images.",
  ["inputs", "histories"], "every supported document and every sequence of erase/clean/scale edits",
  "No test ever reloads an exported document; the tests check single edits on three files.",
  [ED, AD, BT, NO], [("export", ED + " to_json_data"), ("load", AD + " SpineAnimationData.__init__"), ("default filling", BT)],
  [("spine_anim_data", "typed document", ED)], ["to_json_data()", "SpineAnimationEditor(exported)"])

p("C03", "Files written are complete and equal to the in-memory export",
  "Saving an edited animation or its image references to a file path - with or without a directory part, whether or not the directory exists yet, and whether or not a longer file is already there - produces a file that parses to exactly the current in-memory export (or image references). Loading that file gives an editor with the same export and the same image references as the one that saved it, and loading any JSON file gives the same editor as its parsed content.",
  ["inputs", "configurations"], "every supported document (any unicode names), every edit history, every kind of target path",
  "The suite never writes a file; only from_json_file is exercised, on ASCII-named fixtures.",
  [ED], [("to_json / save_images_json create the directory and dump", ED), ("from_json_file", ED)], (), ["files on disk"])

p("C04", "Unsupported content is refused, never silently dropped",
  "If a document contains, on any object the format defines, an attribute the library does not support, or an attachment of unknown type, loading fails with an error; it never loads and then exports without that content. The free-form skeleton header is the only place where unknown attributes are allowed, and they are preserved.",
  ["inputs"], "every supported document with one unknown attribute inserted at any typed position (bones, slots, every attachment type, constraints, events, every timeline and keyframe type, document level, skin level, animation level)",
  "One test covers a missing attribute; no test inserts an unknown one, and there are about 30 distinct positions.",
  [BT, DT + "skin.py", AD], [("unknown key check against declared attributes", BT + " SpineData.__init__"), ("attachment type dispatch", DT + "skin.py")], (), ["SpineAnimationEditor(json)"])

p("C05", "Documents missing required attributes are refused",
  "A document in which any bone lacks its name, any slot lacks its name or its bone, or any draw-order entry lacks its offset is refused on load with the library's parsing error naming the missing attribute, wherever in the document that object is. The same document with the attribute present loads, even when its value is zero.",
  ["inputs"], "every supported document, every bone/slot/draw-order entry in it",
  "One test removes one offset in one fixture.",
  [BT, DT + "bone.py", DT + "slot.py", DT + "draworder.py"], [("REQUIRED lists checked at construction", BT)], (), ["SpineAnimationEditor(json)"])

p("C06", "Editors neither modify nor share the caller's data",
  "Building an editor and performing any edits never changes the document object passed in. Documents and results returned by the editor are snapshots: changing them, or editing further, does not affect one another, and two editors built from the same document object evolve independently.",
  ["inputs", "histories"], "every document, every interleaving of edits on one or two editors and in-place changes to returned documents",
  "Tests read fresh files each time and never look at the input after the call or mutate a result.",
  [ED, AD, BT, NO], [("deep copies on load and export", AD), ("default tables are copied", BT + " default_values"), ("graph nodes hold copies", NO + " SpineNodeData")], (), ["caller's dict", "to_json_data()", "ErasingResult"])

p("C07", "Erasing animations removes exactly the requested ones",
  "After erasing a list of animation names, exactly those animations are gone and every other animation is still present in the same order; unknown names are an error in strict mode (the default) and ignored otherwise, and a non-list argument is a type error. In safe mode nothing else in the document changes, and the returned document always equals the editor's export.",
  ["inputs", "configurations"], "every document, every list of names (existing, unknown, mixed, empty, all), strict/non-strict, safe/unsafe mode",
  "One test erases four fixed animations in strict, unsafe mode.",
  [ED], [("raw erase, strict check, optional clean-up", ED + " erase_animations / _erase_raw_animations_data")], (), ["to_json_data()", "ErasingResult"])

p("C08", "Clean-up never changes what remaining animations show",
  "For every animation and skin that remain after erasing animations, erasing skins or cleaning, and at every point in time of that animation, the same attachments (resolved to the same image, size, geometry, colour and deformation keys) are shown in the same slots and in the same draw order as before the edit. Slots whose alpha is zero or which have no attachment at that time count as showing nothing.",
  ["inputs", "histories"], "every supported document, every set of erased animations/skins (at least one animation remaining), every remaining animation x skin x keyframe time and instants between keyframes",
  "The expected documents in the tests are recorded outputs for one animation set of two files; nothing evaluates what a timeline actually shows.",
  [ED, AD, DT + "slot.py", DT + "animation.py", DT + "draworder.py", DT + "skin.py", GC],
  [("visibility analysis of slots per animation", AD + " get_unused_slots_and_attachments / get_visible_slots_and_attachments"), ("timeline predicates", DT + "slot.py SlotTimeline"), ("removal in skins/animations/draw order", ED + " remove_slots / remove_attachments"), ("linked mesh conversion", AD + " remove_skin")],
  [("visible slots, used attachments", "what must survive clean-up", AD)], ["to_json_data() before and after"])

p("C09", "Edits leave no dangling references",
  "After any sequence of edits every reference in the exported document resolves: skins, animations, deform keys and draw-order entries mention only existing slots, bones, constraints and skins; deform keys mention only existing attachments of their skin; every linked mesh's parent mesh exists in its slot and skin; slots, bones and constraints name existing bones; and path-constraint targets and clipping end slots exist. Draw-order positions stay within the slot list.",
  ["inputs", "histories"], "every referentially consistent document and every sequence of erase/clean/scale edits",
  "Tests compare recorded outputs of two files that contain no path constraints on removable slots, no clipping and few draw-order keys.",
  [ED, AD, DT + "animation.py", DT + "draworder.py", GC, NO],
  [("reference removal after slot/attachment removal", ED + " _clean_slots_in_skins / _clean_slots_in_animations / _clean_draw_order_refs / _clean_attachments_in_skins"), ("graph id <-> name mapping", NO + " _to_graph_id / _to_base_id")], (), ["to_json_data()"])

p("C10", "Clean-up removes all and only the unused, and reports it",
  "Cleaning removes exactly: slots that no remaining animation can show (empty or zero-alpha set-up that no animation fills, or emptied for the whole of every animation), attachments that no such visible slot uses in its set-up or timelines (meshes and paths of visible slots excepted), and then slots left without any attachment that no path constraint or clipping region needs. The reported removed slots are exactly the slots that disappeared, and the reported removed attachments are exactly those removed as unused.",
  ["inputs", "histories"], "every supported document and every set of erased animations/skins with at least one animation remaining",
  "Two recorded results; most rule combinations (alpha zero with/without colour keys, two-colour keys, blend/dark slots, null keys at time zero or later, several animations disagreeing) are never sampled.",
  [AD, ED, DT + "slot.py", GC], [("unused rule", AD + " get_unused_slots_and_attachments"), ("leaf slot removal", GC + " remove_leafs_of_type")], (), ["to_json_data()", "returned summary"])

p("C11", "Draw order survives slot removal",
  "For every draw-order keyframe, the drawing order of the slots that remain after an edit is the order they had before it with the removed slots taken out; when nothing is removed the resulting order is unchanged. This holds for any valid set of offsets, including entries that move a slot by zero.",
  ["inputs"], "every slot list, every valid draw-order keyframe (any permutation, any sufficient subset of slots listed), every subset of removed slots",
  "Nineteen recorded offsets in one file, none of them zero; n slots have n! orders times 2^n removals.",
  [DT + "draworder.py", ED], [("offset recomputation", DT + "draworder.py remove_offsets_with_ids"), ("original slots remembered before removal", ED + " clean_animation")], (), ["animations.*.drawOrder in the export"])

p("C12", "Erasing and cleaning never touch the rest of the skeleton",
  "Erasing animations or skins and cleaning never change the skeleton header, the bones, the IK, transform and path constraints, the event definitions, the attributes of surviving slots (except that a removed attachment is no longer their set-up attachment), the data of surviving attachments, or the bone, constraint and event timelines of surviving animations. In particular changes already made by scaling are kept by later erasing or cleaning, so scaling and erasing can be done in either order with the same result.",
  ["inputs", "histories"], "every document and every interleaving of scale, erase and clean operations",
  "No test combines two operations.",
  [ED, NO, AD], [("clean-up rebuilds bones, slots and ik from the graph", ED + " clean_animation"), ("graph to json", NO + " to_json_data")], [("spine_graph", "copy of bones/slots/ik used to rebuild the document", ED)], ["to_json_data()"])

p("C13", "Image references always match the images in use",
  "After construction and after every erase or clean operation, the editor's image references contain exactly the images used by region, mesh and linked-mesh attachments of the remaining skins: an image disappears when its last user disappears and stays while any user remains. This holds whether an image is named by its path, its name or only by its attachment key.",
  ["inputs", "histories"], "every document (images shared across skins/slots, explicit and implicit names) and every sequence of edits in safe and normal mode",
  "Two recorded sets; no image there is implicit in an erased skin or shared through equal attachment names.",
  [ED, AD, NO, GC], [("initial references", ED + " get_images_references"), ("removal", ED + " _clean_images_references"), ("images only used by erased skins", AD + " remove_skin")], [("images_references", "image id -> {path, scale}", ED)], ["editor.images_references", "erase_skins result"])

p("C14", "Image entries carry the right file path and scale",
  "Each image reference's file path is the skeleton's images folder (./images/ if absent) joined with the image name. Its scale is the product of the [scale:x] tags in the name of a slot using it, that slot's bone and the bone's ancestors below the root, and is absent exactly when that product is 1.",
  ["inputs"], "every document: any bone hierarchy, any placement of scale tags, any images folder",
  "One fixture with a couple of images.",
  [ED, AD, UT], [("path join and scale", ED + " get_images_references"), ("recursive bone scale", AD + " get_slot_custom_scale / get_bone_custom_scale_recursive")], (), ["editor.images_references", "save_images_json"])

p("C15", "Erasing skins removes exactly those skins and detaches linked meshes",
  "After erasing skins, exactly the named skins and their deform keys are gone and the others remain in order; an unknown skin is an error. Every linked mesh in a remaining skin whose parent mesh lived in an erased skin becomes a stand-alone mesh with the parent's geometry and its own image, size and colour, and keeps deforming as it did (by the parent's deform keys, or by its own when it is set not to inherit deformation), all other attachments are untouched in safe mode, and the returned images are those of the erased skins that no remaining skin uses.",
  ["inputs", "histories"], "every document with linked meshes across skins (any parent/child attachment names, default or named parent skin), every list of skins to erase",
  "One test erases one skin in which all linked meshes have the same key as their parent.",
  [AD, ED], [("linked mesh conversion", AD + " remove_skin"), ("image computation", ED + " erase_skins")], (), ["to_json_data()", "erase_skins result"])

p("C16", "Scaling scales the whole animation and nothing else",
  "Scaling by a uniform positive factor multiplies the set-up world transform (position relative to the root bone, and axes) of every bone by that factor, whatever the bones' scale-inheritance modes. Any scaling changes only scaleX/scaleY of the root and of bones that do not inherit scale, each exactly once by the given factors; scaling by 1 changes nothing and successive scalings multiply.",
  ["inputs", "histories"], "every bone hierarchy with any mix of transform modes, any factors, any sequence of scalings",
  "scale_animation has no test at all.",
  [ED, DT + "bone.py"], [("root and non-inheriting bones scaled", ED + " scale_animation"), ("Bone.scale", DT + "bone.py")], (), ["bones in to_json_data()"])

p("C17", "A refused edit leaves the editor unchanged",
  "When an erase call is refused (an unknown animation in strict mode, an unknown skin, a name asked for twice, a wrongly typed argument), the exported document and the image references are exactly what they were before the call. Subsequent valid edits behave as if the refused call had never been made.",
  ["inputs", "fault_sequences", "histories"], "every document, every erase request mixing valid and invalid names in any order, every following edit",
  "No test calls an edit with an invalid name.",
  [ED, AD], [("strict check", ED + " _erase_raw_animations_data"), ("skin lookup", AD + " remove_skin")], (), ["to_json_data()", "images_references"])

p("C18", "Spine versions parse strictly and order numerically",
  "A version string is accepted exactly when it is two or three dot-separated decimal numbers, a missing patch counting as zero, and is refused with a value error otherwise. Comparisons between versions, and between a version and a string, agree with comparing (major, minor, patch) numerically: exactly one of <, ==, > holds, <= and >= are their unions, and documents of any version from 3.8 on are treated as 3.8-format documents.",
  ["inputs"], "every pair and triple of version numbers (any magnitude), every malformed string",
  "SpineVersion is only exercised with 3.8.59 against 3.8.",
  [SV, "spine_json_lib/data/constants.py", ED], [("comparison operators", SV), ("validation", SV + " validate / split_version")], (), ["SpineVersion operators", "editor construction"])

p("C19", "Name tags are read exactly",
  "The tags read from a bone or slot name are exactly the bracketed [tag: value] groups it contains, with surrounding whitespace ignored and text outside well-formed groups ignored; a scale tag yields its numeric value. A repeated tag, an unsupported tag, or a scale that is not a finite number is refused with a value error.",
  ["inputs"], "every name string",
  "Eight literal names are tested.",
  [UT], [("tag regular expression and casting", UT + " get_tags_from_name / cast_element")], (), ["get_tags_from_name"])

p("C20", "Graph mutations keep nodes and edges consistent",
  "After any sequence of adding and removing nodes and edges, the graph contains exactly the nodes and edges a set model contains: parent and child links always mirror one another, node identifiers are unique, generated identifiers are fresh (neither in use nor generated before) and a removed node leaves no links behind. A refused operation (duplicate id, non-string id, unknown node, self link, forbidden child type) raises and changes nothing.",
  ["histories", "inputs"], "every sequence of graph operations over any ids and node types",
  "Tests run a few straight-line sequences.",
  [DG, SN, "spine_json_lib/graph/factories.py"], [("add/remove node and edge", DG), ("link checks", SN + " _add_child / _add_parent")], [("_nodes, children, parents", "graph structure", DG)], ["get_node", "node.children / node.parents"])

p("C21", "Graph queries are exact",
  "For every graph, the heads are exactly the nodes without parents and the tails exactly those without children, each listed once; validation reports circular references if and only if the graph has a cycle, and unconnected nodes are exactly the heads that are not input roots. For acyclic graphs rooted in input nodes, the paths between two nodes are exactly all paths of at most the given number of nodes, each once; otherwise an invalid graph or unknown node is refused.",
  ["inputs", "histories"], "every graph, every node pair, every depth limit, node types given as equal but distinct strings",
  "Seven fixed graphs.",
  [DG, GV], [("head/tail search", DG + " __get_nodes"), ("cycle detection", GV), ("path enumeration", DG + " get_all_paths")], (), ["get_heads_id", "get_tails_id", "validate", "get_all_paths"])

p("C22", "The execution order respects every dependency",
  "For every acyclic graph the sequential order of execution lists every node exactly once, and every node comes after all of its parents.",
  ["inputs"], "every acyclic graph, built in any insertion order",
  "Two fixed graphs with one accepted order each.",
  [DG], [("sequential_order_of_execution", DG)], (), ["sequential_order_of_execution"])

p("C23", "The skeleton graph mirrors the document",
  "The dependency graph built from a document has exactly one node per bone, slot, IK constraint, attachment name and image name (the path, else the name, else the key of an attachment of any type), with exactly the links bone-parent to bone, bone to slot, IK target to IK to its bones, slot to attachment and attachment to image; converting it back gives the document's bones, slots and IK constraints unchanged and in order, whatever the (non-empty) names, even when the document it was built from is changed afterwards. Removing slots, attachments, leaves or heads of a type through the container removes exactly those nodes, repeatedly until none is left, and reports their plain names. Going through JSON files or text gives the same graphs and documents, and classes that are not graph parsers are refused.",
  ["inputs", "histories"], "every document (names may contain any text, including type suffixes) and every sequence of container removals",
  "One fixture, compared only for bones/slots/ik after sorting.",
  [NO, GC, DG], [("graph construction", NO + " create_from_json_data"), ("graph to json, sorted by index", NO + " to_json_data"), ("removal loops", GC)], (), ["SpineGraphParser", "SpineGraphContainer"])

p("C24", "Output is deterministic across processes",
  "The same document and the same sequence of edits give byte-identical saved files, image reference files and the same reported sets of removed items in every process, independent of the hash seed of the interpreter.",
  ["inputs", "configurations"], "every document and edit history, across hash seeds",
  "The suite runs under one fixed hash seed and compares parsed data order-insensitively.",
  [ED, AD, BT, NO], [("sets are used for membership, order comes from document lists", AD + " / " + ED)], (), ["to_json files under different PYTHONHASHSEED"])

p("C25", "Erasing is order-independent and cleaning converges",
  "Erasing several animations in one call, one at a time in any order, or in safe mode followed by one clean-up ends in the same document, as does erasing skins and animations in either order in safe mode. Clean-ups in between make no difference either, as long as no linked mesh has to become a mesh of its own (set-up attachments that no skin has aside). Cleaning an already cleaned document, or cleaning it again after reloading, changes nothing.",
  ["inputs", "histories"], "every document in which attachment names are not shared between slots, every set of animations, every order and grouping (at least one animation remaining)",
  "No test performs two edits on the same editor.",
  [ED, AD, GC], [("clean-up after each erase", ED + " erase_animations / clean_animation")], (), ["to_json_data()"])

p("C26", "Names carry no hidden meaning",
  "Consistently renaming slots, bones (other than root), attachments, images, skins (other than default), animations and events throughout a document and then editing gives the same result as editing and then renaming. This holds for any non-empty names, including ones that contain words like SLOT or IMAGE, one another, digits, dots or non-ASCII text (bracketed tags and the reserved attachment name None excepted).",
  ["inputs", "histories"], "every document, every injective renaming, every edit sequence",
  "Fixture names are fixed; no test varies them.",
  [NO, GC, ED, AD], [("graph id suffixes and their removal", NO + " _to_graph_id / _to_base_id"), ("membership tests by name", ED)], (), ["to_json_data()", "images_references", "summaries"])

p("C27", "Export for another version loses nothing",
  "Exporting the typed document for a version before 3.8 writes out explicitly every value that only the 3.8 format allows to be omitted (such as keyframe times of zero), so that reading it back with that version's defaults gives the same values, and no key gets a list (such as a curve) it does not have; exporting for any version leaves the document itself unchanged. Removing unsupported attributes drops only the 3.8-only curve attributes of bone, slot and IK keyframes, and only for versions before 3.8.",
  ["inputs", "configurations"], "every document, every target version",
  "No test exports for a version other than the document's own.",
  [BT, AD, DT + "bone.py", DT + "slot.py", DT + "ik.py", DT + "deform.py", DT + "transform.py", DT + "path.py"], [("version-dependent default tables", BT + " default_values"), ("unsupported attribute removal", BT + " remove_unsupported_attributes")], (), ["SpineAnimationData.to_json(version)"])

p("C28", "The typed model shows the document and its edits reach the export",
  "Every typed object reached from a loaded editor answers each attribute with the value it has in the document, and an absent attribute with nothing or with the value the format assumes. Setting an attribute, or changing a list in place, through the typed model changes exactly that value in the export - nothing in any other object, animation or editor - and later edits behave as on a document that had that value from the start.",
  ["inputs", "histories"], "every document, every attribute of every object, every sequence of changes through the model interleaved with and followed by erase, clean and scale operations",
  "The suite never changes the typed model except through the editor's own operations.",
  [BT, AD, ED], [("assumed values are filled in per object", BT + " set_default_values_from_version"), ("lookup with fallback", BT + " get"), ("graph rebuilt from the current data", ED + " clean_animation")],
  [("DEFAULT_VALUES", "class-level tables whose values must not be shared by objects", BT)], ["editor.spine_anim_data.data", "to_json_data()"])

p("C29", "Lookups and removals by name are exact",
  "Looking up a bone, slot or skin by name gives exactly the object of the document with that name and nothing for any other name, and the slots reported to have alpha zero are exactly those whose colour says so. Removing slots by name from skins and animations, attachments by name from skins, set-up poses and deform keys, or a skin from the data takes every mention of exactly those names away there, keeps the drawing order of the other slots, and changes nothing else; removing an unknown skin is refused.",
  ["inputs", "histories"], "every document, every set of names, known and unknown, in any order",
  "The suite only removes what clean-up finds unused in three documents.",
  [ED, AD, DT + "animation.py"], [("removal of slots", ED + " remove_slots"), ("removal of attachments", ED + " remove_attachments"), ("removal of a skin", AD + " remove_skin"), ("lookups", AD + " get_slot")],
  (), ["editor.remove_slots", "editor.remove_attachments", "SpineAnimationData.remove_skin", "get_bone/get_slot/get_skin"])

p("C30", "Exports are compact",
  "For Spine 3.8 and later, exports leave out every value the format assumes - unit scales, zero offsets, lengths, rotations and orders, keyframe times of zero, neutral key values and curve handles, unset constraint, path and linked-mesh flags, event defaults - so a document that spells such values out is exported and edited exactly like one that leaves them out. Null names and empty lists of offsets aside, no object is exported with an attribute it does not have in the document.",
  ["inputs", "histories"], "every document, every set of places where an assumed value is spelled out, every edit history",
  "Three documents whose exports are compared with committed files.",
  [BT, AD, DT + "bone.py", DT + "ik.py", DT + "path.py", DT + "skin.py", DT + "transform.py", DT + "events.py", DT + "deform.py"],
  [("values equal to the default are not serialised", BT + " to_spine_data_ignoring_default_values")],
  [("SPINE_3_8_DEFAULT_VALUES", "the values that are left out, per type; the stated ones are those the base version leaves out (not, e.g., the mixes of transform constraints or the modes of path constraints)", BT)], ["to_json_data()"])

p("C31", "An editor's past and other documents leave no trace",
  "What an edit exports, reports and lists as image references depends only on the document the editor held before it: editing step by step gives the same as exporting and reloading before every step, whatever was asked, refused or changed in returned objects before. Nor does it depend on other documents loaded, edited or refused in the same process, even ones that use the same names for other things: each document comes out as if it had been alone in a fresh process.",
  ["inputs", "histories"], "every pair of documents, every interleaving of loading, editing, queries and refused calls",
  "The suite builds one editor per test and makes one edit; nothing it does would notice results that are kept between calls or between documents.",
  [ED, AD, BT, UT, GC, DT + "skin.py", DT + "bone.py"],
  [("results are computed from the current data", ED + " to_json_data"), ("graph rebuilt from the current data", ED + " clean_animation"), ("assumed values filled in per object", BT + " set_default_values_from_version")],
  [("images_references", "kept between calls, brought up to date by every erase and clean", ED), ("spine_graph", "rebuilt from the data when it is used", ED)],
  ["SpineAnimationEditor(...)", "erase_animations", "erase_skins", "clean_animation", "scale_animation", "to_json_data()", "images_references"])

p("C32", "Key order and the spelling of the JSON carry no meaning",
  "Documents that differ only in the order of keys within objects, in whole numbers written as integers or decimals, in the case of hexadecimal colour digits, or in the formatting and escapes of the file are the same animation: the same edits report the same removals and images and give exports that differ in that way only. The order of skins and constraints in their lists likewise decides nothing but their order in exports.",
  ["inputs", "histories"], "every document, every other spelling of it, every edit history",
  "The suite has one spelling of each of its documents, as written by one version of one exporter.",
  [ED, AD, BT, UT, DT + "slot.py", DT + "animation.py", DT + "skin.py"],
  [("iteration over dictionaries of the document", AD + " _get_unused_attachments"), ("colours parsed as numbers", AD + " get_slots_with_alpha_zero"), ("loading of files", ED + " from_json_file"), ("parents of linked meshes found by skin name", AD + " remove_skin")],
  (), ["from_json_file", "to_json_data()", "images_references", "what erase_* and clean_animation return"])

p("C33", "Unrelated content does not influence edits",
  "Adding to a document things that nothing in it refers to - bones, visible slots with attachments of their own at the end of the drawing order, events, skins, constraints, animation content for these, an animation that is erased again, or copies of an animation that are erased with it - changes nothing about what any edit does to, or reports of, everything else, whatever the additions are called and however many there are.",
  ["inputs", "histories"], "every document, every set of unrelated additions, every edit history",
  "The suite compares fixed documents with fixed results; none is edited with and without something else in it.",
  [ED, AD, GC, NO, DG, DT + "animation.py"],
  [("names mapped to graph identifiers", NO + " _to_graph_id"), ("removal by identifier", ED + " remove_slots"), ("leaves and heads removed by type", GC + " remove_leafs_of_type"), ("offsets recomputed over all slots", DT + "animation.py remove_draw_order_with_ids")],
  (), ["to_json_data()", "images_references", "what erase_* and clean_animation return"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
