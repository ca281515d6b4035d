"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("differential against a normaliser built from the format", "values, attributes and structures are generated; the table of assumed values of the 3.8 format is trusted"),
    "C02": ("round-trip over edit histories", "export, reload and export again after every generated history"),
    "C03": ("round-trip through files with generated path shapes", "files live in a scratch directory of the check"),
    "C04": ("fault injection of unknown attributes into generated documents", "every kind of object of the format is a site; free-form maps (path timeline groups, skeleton header) are excluded"),
    "C05": ("fault injection of missing required attributes into generated documents", "the attributes bone.name, slot.name, slot.bone and offset are the required ones"),
    "C06": ("aliasing search: two editors, interleaved edits, mutation of everything returned", "compares with editors that had the same edits and no outside interference"),
    "C07": ("comparison with a reference erase", "the resulting animations, the refusals and the results are compared for generated name lists"),
    "C08": ("metamorphic relation against a reference renderer", "what is drawn at every keyed instant and in between, in every skin; inherited deforms of linked meshes are not modelled"),
    "C09": ("invariant: referential integrity after every edit", "all kinds of references of the format, on documents that are consistent to start with"),
    "C10": ("comparison with a reference implementation of the unused rule", "removed items and the reports are compared exactly"),
    "C11": ("comparison with reference draw-order semantics", "every generated draw-order key, before and after removing generated slots"),
    "C12": ("frame condition and commutation over edit histories", "everything outside the removed items is compared; scaling is moved to the front and the end"),
    "C13": ("invariant: images recomputed from the export after every edit", "image naming rule of the format: path, else name, else key"),
    "C14": ("comparison with a reference product of scale tags and path join", "generated bone chains, tags and image folders"),
    "C15": ("comparison with a reference skin removal", "linked meshes across skins, reported images and refusals are compared exactly"),
    "C16": ("comparison with reference world transforms", "translation and axes of all bones under the 3.8 run-time rules for the transform modes"),
    "C17": ("differential against a history without the refused call", "state before and after the refusal and all later results are compared"),
    "C18": ("comparison with integer tuples", "ordering of generated neighbouring versions, refusal of malformed ones"),
    "C19": ("comparison with a hand-written scanner", "strings assembled from tag fragments and arbitrary text"),
    "C20": ("stateful model-based testing against a set model", "all public mutations, three node factories, state compared after every operation"),
    "C21": ("comparison with brute-force definitions", "graphs of up to 8 nodes, cyclic and acyclic, and chains of up to 25"),
    "C22": ("invariant: each node once, parents first", "acyclic graphs of up to 22 nodes in any insertion order"),
    "C23": ("comparison with reference node and link sets over removal sequences", "adversarial names, every container removal"),
    "C24": ("differential across processes with different hash seeds", "four hash seeds, byte equality of what is saved"),
    "C25": ("metamorphic relations: grouping, order and repetition of edits", "documents whose attachment names belong to one slot each"),
    "C26": ("metamorphic relation: renaming commutes with editing", "injective renamings of all namespaces, including exchanges and type words"),
    "C27": ("round-trip through other versions and explicitness table", "3.8 documents exported for generated older and newer versions"),
    "C28": ("metamorphic relation: changing the typed model equals changing the document", "names and references are not changed through the model"),
    "C29": ("comparison with reference removal by name and linear lookup", "removal of slots ends a history, since taking them off the slot list is the caller's"),
    "C30": ("metamorphic relation: spelling assumed values out changes nothing", "the table of left-out values is written from the format, restricted to those the library promises to leave out"),
    "C31": ("differential against fresh processes and against reloading before every edit", "one or two documents, up to three edits each, ten kinds of queries and refused calls in between"),
    "C32": ("metamorphic relation: another spelling of the document changes nothing", "five ways of spelling, combined; the scale of images shared by slots of different scales is not compared"),
    "C33": ("metamorphic relation: unrelated additions change nothing", "up to twelve additions at the end of their lists"),
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = [{
        "property": i, "quick_cmd": "python3-vt -B run.py %s --tier quick" % i, "thorough_cmd": "python3-vt -B run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "property-based testing (Hypothesis): " + TECH[i][0], "level": "exploration",
        "level_note": "Search over generated inputs, no guarantee beyond the cases run. " + TECH[i][1][0].upper() + TECH[i][1][1:] + ".",
    } for i in ids if i in TECH]
    m = {"version": 1, "setup_cmd": "true", "checks": checks,
         "not_applicable": [{"property": i, "reason": "no check"} for i in ids if i not in TECH],
         "notes": "No hooks: the checks use only the public interface of /repo. The library is pure Python and imported from /repo's working tree, nothing is built."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
