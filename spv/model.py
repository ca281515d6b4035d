"""Reference oracles, written from the Spine 3.8 format and the library's documentation, never calling the library."""
import copy
import math

from spv import schema as S
from spv.schema import NODEF


# ---------------------------------------------------------------- normal form of a document
def _obj(o, spec):
    out = {}
    for k, v in o.items():
        if v is None:
            continue
        if k in spec and spec[k][1] is not NODEF and type(spec[k][1]) is not type(NODEF):
            d = spec[k][1]
            if isinstance(v, bool) == isinstance(d, bool) and v == d:
                continue
        if isinstance(v, (list, dict)) and not v:
            continue
        out[k] = v
    return out


def norm_attachment(a):
    return _obj(a, S.ATT.get(a.get("type"), {}))


def _drop_empty(d):
    return {k: v for k, v in d.items() if not (isinstance(v, (list, dict)) and not v)}


def norm_event_key(k, defs):
    """int/float/string of a key assume the event definition's value."""
    out = _obj(k, S.EVENTKEY)
    d = defs.get(k.get("name")) or {}
    for a, z in (("int", 0), ("float", 0), ("string", "")):
        base = d.get(a)
        base = z if base is None else base
        if a in out and out[a] == base:
            del out[a]
    return out


def norm_animation(a, events=None):
    out = {}
    for grp in ("bones", "slots", "path"):
        out[grp] = {n: _drop_empty({t: [_obj(k, S.TIMELINES[grp].get(t, {})) for k in ks] for t, ks in tl.items()})
                    for n, tl in a.get(grp, {}).items()}
    out["ik"] = {n: [_obj(k, S.K_IK) for k in ks] for n, ks in a.get("ik", {}).items()}
    out["transform"] = {n: [_obj(k, S.K_TRANSFORM) for k in ks] for n, ks in a.get("transform", {}).items()}
    out["deform"] = {s: {sl: {at: [_obj(k, S.K_DEFORM) for k in ks] for at, ks in d2.items()} for sl, d2 in d1.items()}
                     for s, d1 in a.get("deform", {}).items()}
    out["events"] = [norm_event_key(k, events or {}) for k in a.get("events", [])]
    out["drawOrder"] = []
    for k in a.get("drawOrder", []):
        kk = _obj({x: y for x, y in k.items() if x != "offsets"}, S.K_DRAW)
        kk["offsets"] = [_obj(o, S.OFFSET) for o in k.get("offsets") or []]
        out["drawOrder"].append(kk)
    for k in a:
        if k not in out:
            out[k] = a[k]
    return out


def prune_animation(a):
    """Drop empty per-object timeline maps: they say nothing."""
    a = copy.deepcopy(a)
    for grp in ("bones", "slots", "path"):
        a[grp] = {n: t for n, t in a[grp].items() if t}
    for grp in ("ik", "transform"):
        a[grp] = {n: t for n, t in a[grp].items() if t}
    a["deform"] = {s: {sl: {k: v for k, v in d2.items() if v} for sl, d2 in d1.items()} for s, d1 in a["deform"].items()}
    a["deform"] = {s: {sl: d2 for sl, d2 in d1.items() if d2} for s, d1 in a["deform"].items()}
    a["deform"] = {s: d1 for s, d1 in a["deform"].items() if d1}
    return a


def norm(doc, prune=True):
    """Normal form: assumed values removed, missing sections empty. Two documents mean the same iff equal here."""
    ev = doc.get("events", {})
    out = {
        "skeleton": doc["skeleton"],
        "bones": [_obj(b, S.BONE) for b in doc.get("bones", [])],
        "slots": [_obj(s, S.SLOT) for s in doc.get("slots", [])],
        "skins": [{"name": sk.get("name"), "attachments": {sl: {k: norm_attachment(a) for k, a in d.items()} for sl, d in (sk.get("attachments") or {}).items()}}
                  for sk in doc.get("skins", [])],
        "events": {n: _obj(e, S.EVENT) for n, e in ev.items()},
        "ik": [_obj(i, S.IK) for i in doc.get("ik", [])],
        "transform": [_obj(i, S.TRANSFORM) for i in doc.get("transform", [])],
        "path": [_obj(i, S.PATH) for i in doc.get("path", [])],
        "animations": {n: norm_animation(a, ev) for n, a in doc.get("animations", {}).items()},
    }
    if prune:
        out["animations"] = {n: prune_animation(a) for n, a in out["animations"].items()}
        for sk in out["skins"]:
            sk["attachments"] = {sl: d for sl, d in sk["attachments"].items() if d}
    for sk, src in zip(out["skins"], doc.get("skins", [])):
        for k in src:
            if k not in sk:
                sk[k] = src[k]
    for k in doc:
        if k not in out:
            out[k] = doc[k]
    return out


# ---------------------------------------------------------------- small views
def slot_names(doc):
    return [s["name"] for s in doc.get("slots", [])]


def slot_by_name(doc):
    return {s["name"]: s for s in doc.get("slots", [])}


def skin_names(doc):
    return [s.get("name") for s in doc.get("skins", [])]


def skin_atts(doc):
    """[(skin, slot, key, attachment)] in document order."""
    return [(sk.get("name"), sl, k, a) for sk in doc.get("skins", []) for sl, d in (sk.get("attachments") or {}).items() for k, a in d.items()]


def anim_names(doc):
    return list(doc.get("animations", {}))


# ---------------------------------------------------------------- images
IMAGE_TYPES = (None, "region", "mesh", "linkedmesh")


def image_of(key, a):
    """Image name of an attachment or None when it shows no image."""
    if a.get("type") not in IMAGE_TYPES:
        return None
    return a.get("path") or a.get("name") or key


def images_used(doc, skins=None):
    return {image_of(k, a) for sk, sl, k, a in skin_atts(doc) if (skins is None or sk in skins)} - {None}


# ---------------------------------------------------------------- draw order
def apply_offsets(names, offsets):
    """Spine semantics: slot i goes to i+offset, the others fill the rest in set-up order."""
    n = len(names)
    order = [None] * n
    listed = set()
    for o in offsets:
        i = names.index(o["slot"])
        j = i + o["offset"]
        if not (0 <= j < n) or order[j] is not None:
            return None
        order[j] = o["slot"]
        listed.add(o["slot"])
    rest = iter([x for x in names if x not in listed])
    return [x if x is not None else next(rest) for x in order]


# ---------------------------------------------------------------- rendering
def _alpha(rgba):
    return int(rgba[-2:], 16)


def _t(k):
    t = k.get("time")
    return 0 if t is None else t


def _at(keys, t):
    """Index of the last key at or before t, or -1."""
    r = -1
    for i, k in enumerate(keys):
        if _t(k) <= t:
            r = i
    return r


def _alpha_positive(slot, tl, t):
    """Is the slot's alpha above zero at t? colour keys replace the set-up colour once reached."""
    setup = slot.get("color")
    pos = True if setup is None else _alpha(setup) > 0
    for name, attr in (("color", "color"), ("twoColor", "light")):
        keys = tl.get(name) or []
        if not keys:
            continue
        i = _at(keys, t)
        if i < 0:
            continue
        a = _alpha(keys[i].get(attr) or "ffffffff") > 0
        if _t(keys[i]) < t and i + 1 < len(keys) and keys[i].get("curve") != "stepped":
            a = a or _alpha(keys[i + 1].get(attr) or "ffffffff") > 0
        pos = a
    return pos


def instants(anim):
    ts = {0}
    for tl in anim.get("slots", {}).values():
        for ks in tl.values():
            ts.update(_t(k) for k in ks)
    ts.update(_t(k) for k in anim.get("drawOrder", []))
    ts = sorted(ts)
    out = []
    for i, t in enumerate(ts):
        out.append(t)
        if i + 1 < len(ts):
            out.append((t + ts[i + 1]) / 2.0)
    out.append(ts[-1] + 1.0)
    return out


GEOM = ("uvs", "triangles", "vertices", "hull", "edges")


def resolve_attachment(doc_index, skin, slot, key):
    """(skin found in, key, attachment with linked mesh geometry resolved) or None."""
    for sk in ([skin, "default"] if skin != "default" else ["default"]):
        a = doc_index.get((sk, slot, key))
        if a is not None:
            return sk, resolved_data(doc_index, slot, key, a)
    return None


def resolved_data(doc_index, slot, key, a):
    a = norm_attachment(a)
    if a.get("type") == "linkedmesh":
        parent = doc_index.get((a.get("skin") or "default", slot, a.get("parent")))
        out = {"shape": "mesh", "image": image_of(key, a)}
        if parent is None:
            out["missing parent"] = [a.get("skin"), a.get("parent")]
        else:
            p = norm_attachment(parent)
            for g in GEOM:
                if g in p:
                    out[g] = p[g]
        for g in ("width", "height", "color"):
            if g in a:
                out[g] = a[g]
        return out
    if a.get("type") == "mesh":
        out = {"shape": "mesh", "image": image_of(key, a)}
        for g in GEOM + ("width", "height", "color"):
            if g in a:
                out[g] = a[g]
        return out
    if a.get("type") in (None, "region"):
        out = dict(a)
        for g in ("name", "path", "type"):
            out.pop(g, None)
        out["image"] = image_of(key, a)
        return out
    return a


def att_index(doc):
    return {(sk, sl, k): a for sk, sl, k, a in skin_atts(doc)}


def inherits_deform(a):
    """Is the attachment a linked mesh that is deformed by the keys of its parent mesh instead of its own?"""
    return a.get("type") == "linkedmesh" and a.get("deform") is not False


def frames(doc, skin, anim_name):
    """[(t, [what is drawn, back to front])]"""
    anim = doc["animations"][anim_name]
    names = slot_names(doc)
    by = slot_by_name(doc)
    idx = att_index(doc)
    tls = anim.get("slots", {})
    out = []
    for t in instants(anim):
        order = names
        dk = anim.get("drawOrder", [])
        i = _at(dk, t)
        if i >= 0:
            order = apply_offsets(names, dk[i].get("offsets") or [])
            if order is None:
                out.append((t, "INVALID DRAW ORDER"))
                continue
        drawn = []
        for n in order:
            s = by[n]
            tl = tls.get(n, {})
            key = s.get("attachment")
            ks = tl.get("attachment") or []
            j = _at(ks, t)
            if j >= 0:
                key = ks[j].get("name")
            if key is None or not _alpha_positive(s, tl, t):
                continue
            r = resolve_attachment(idx, skin, n, key)
            if r is None:
                continue
            found_in, data = r
            d = anim.get("deform", {})
            a = idx[found_in, n, key]
            if inherits_deform(a):
                d = d.get(a.get("skin") or "default", {}).get(n, {}).get(a.get("parent"))
            else:
                d = d.get(found_in, {}).get(n, {}).get(key)
            drawn.append({
                "slot": n, "bone": s.get("bone"), "key": key, "attachment": data, "blend": s.get("blend"),
                "color": s.get("color"), "dark": s.get("dark"),
                "colorKeys": [_obj(k, S.K_COLOR) for k in tl.get("color") or []],
                "twoColorKeys": [_obj(k, S.K_TWO) for k in tl.get("twoColor") or []],
                "deformKeys": [_obj(k, S.K_DEFORM) for k in d or []],
            })
        out.append((t, drawn))
    return out


def render_at(doc, skin, anim_name, times):
    """Like frames() but at given instants."""
    anim = doc["animations"][anim_name]
    saved = globals()["instants"]
    try:
        globals()["instants"] = lambda _a: times
        return frames(doc, skin, anim_name)
    finally:
        globals()["instants"] = saved


# ---------------------------------------------------------------- the documented "unused" rule
def timeline_empties(tl):
    """The slot is emptied for the whole animation: only a single null key at time zero."""
    ks = tl.get("attachment") or []
    return not tl.get("color") and not tl.get("twoColor") and len(ks) == 1 and ks[0].get("name") is None and _t(ks[0]) == 0


def possibly_shown(slot, tl):
    if timeline_empties(tl):
        return False
    keyed = [k["name"] for k in tl.get("attachment") or [] if k.get("name") is not None]
    has_color = bool(tl.get("color") or tl.get("twoColor"))
    c = slot.get("color")
    if c is not None and _alpha(c) == 0 and not has_color:
        return False
    if all(slot.get(a) is None for a in ("attachment", "dark", "blend", "color")) and not keyed:
        return False
    return True


def unused(doc):
    """(slots some animation shows, attachment names they use) for a doc with >= 1 animation."""
    shown, used = set(), set()
    for anim in doc["animations"].values():
        for s in doc.get("slots", []):
            tl = anim.get("slots", {}).get(s["name"], {})
            if possibly_shown(s, tl):
                shown.add(s["name"])
                if s.get("attachment") is not None:
                    used.add(s["attachment"])
                used |= {k["name"] for k in tl.get("attachment") or [] if k.get("name") is not None}
    return shown, used


def clean_expected(doc):
    """(removed slots, removed attachment names) by the documented rule, as least fixed point of what is kept."""
    shown, used = unused(doc)
    all_slots = set(slot_names(doc))
    atts = skin_atts(doc)
    kept_slots = shown | ({p.get("target") for p in doc.get("path", [])} & all_slots)
    while True:
        kept_names = used | {k for _, sl, k, a in atts if a.get("type") in ("mesh", "path") and sl in kept_slots}
        ends = {a.get("end") for _, sl, k, a in atts if a.get("type") == "clipping" and k in kept_names and sl in kept_slots} & all_slots
        if ends <= kept_slots:
            break
        kept_slots |= ends
    removed_names = {k for _, _, k, _ in atts} - kept_names
    needed = {p.get("target") for p in doc.get("path", [])} | ends
    filled = {sl for _, sl, k, _ in atts if k in kept_names}
    removed_slots = {s for s in all_slots if s not in kept_slots or (s not in filled and s not in needed)}
    return removed_slots, removed_names


# ---------------------------------------------------------------- reference edits
def erase_anims(doc, names):
    d = dict(doc)
    d["animations"] = {n: a for n, a in doc.get("animations", {}).items() if n not in names}
    return d


def erase_skins(doc, names):
    """The named skins and their deform keys disappear; linked meshes to their meshes become meshes."""
    doc = copy.deepcopy(doc)
    for name in names:
        idx = att_index(doc)
        doc["skins"] = [s for s in doc["skins"] if s["name"] != name]
        for sk in doc["skins"]:
            for sl, d in (sk.get("attachments") or {}).items():
                for k, a in list(d.items()):
                    if a.get("type") == "linkedmesh" and (a.get("skin") or "default") == name:
                        parent = idx[(name, sl, a["parent"])]
                        m = {x: y for x, y in parent.items() if x in ("type",) + GEOM}
                        for x in ("name", "path", "width", "height", "color"):
                            if x in a:
                                m[x] = a[x]
                        d[k] = m
                        if inherits_deform(a):
                            for an in doc.get("animations", {}).values():
                                keys = (an.get("deform") or {}).get(name, {}).get(sl, {}).get(a["parent"])
                                if keys:
                                    an["deform"].setdefault(sk["name"], {}).setdefault(sl, {})[k] = copy.deepcopy(keys)
                                else:
                                    (an.get("deform") or {}).get(sk["name"], {}).get(sl, {}).pop(k, None)
        for an in doc.get("animations", {}).values():
            if name in an.get("deform", {}):
                del an["deform"][name]
    return doc


def after_op(doc, op):
    """(document the clean-up starts from, cleaned?) for an erase/clean operation."""
    if op[0] == "erase_anims":
        return erase_anims(doc, op[1]), not op[3]
    if op[0] == "erase_skins":
        return erase_skins(doc, op[1]), not op[2]
    if op[0] == "clean":
        return doc, True
    return doc, False


def cleaned(doc, slots, names):
    """doc (normal form is fine) without the given slots and attachment names; draw order left alone."""
    d = copy.deepcopy(doc)
    d["slots"] = [s for s in d.get("slots", []) if s["name"] not in slots]
    for s in d["slots"]:
        if s.get("attachment") in names:
            del s["attachment"]
    for sk in d["skins"]:
        sk["attachments"] = {sl: {k: a for k, a in at.items() if k not in names} for sl, at in (sk.get("attachments") or {}).items() if sl not in slots}
    for a in d.get("animations", {}).values():
        if "slots" in a:
            a["slots"] = {n: t for n, t in a["slots"].items() if n not in slots}
        if "deform" in a:
            a["deform"] = {s: {sl: {k: v for k, v in d2.items() if k not in names} for sl, d2 in d1.items() if sl not in slots} for s, d1 in a["deform"].items()}
    return d


# ---------------------------------------------------------------- referential integrity
def dangling(doc):
    """List of references that do not resolve."""
    bad = []
    bones = {b["name"] for b in doc.get("bones", [])}
    slots = slot_names(doc)
    sset = set(slots)
    iks = {i["name"] for i in doc.get("ik", [])}
    trs = {i["name"] for i in doc.get("transform", [])}
    pths = {i["name"] for i in doc.get("path", [])}
    skins = set(skin_names(doc))
    idx = att_index(doc)
    evs = set(doc.get("events", {}))

    def need(x, pool, what):
        if x not in pool:
            bad.append("%s -> %r" % (what, x))

    for name, lst in (("bones", [b["name"] for b in doc.get("bones", [])]), ("slots", slots), ("skins", skin_names(doc))):
        if len(set(lst)) != len(lst):
            bad.append("duplicate names in " + name)
    for i, b in enumerate(doc.get("bones", [])):
        if b.get("parent") is not None:
            need(b["parent"], {x["name"] for x in doc["bones"][:i]}, "parent of bone %r (must come earlier)" % b["name"])
        elif i:
            bad.append("bone %r has no parent" % b["name"])
    for s in doc.get("slots", []):
        need(s.get("bone"), bones, "bone of slot %r" % s["name"])
    for c in doc.get("ik", []) + doc.get("transform", []) + doc.get("path", []):
        for b in c.get("bones", []):
            need(b, bones, "bone of constraint %r" % c["name"])
    for c in doc.get("ik", []) + doc.get("transform", []):
        need(c.get("target"), bones, "target of constraint %r" % c["name"])
    for c in doc.get("path", []):
        need(c.get("target"), sset, "target slot of path constraint %r" % c["name"])
    for sk, sl, k, a in skin_atts(doc):
        need(sl, sset, "slot of attachment %r in skin %r" % (k, sk))
        if a.get("type") == "linkedmesh":
            p = idx.get((a.get("skin") or "default", sl, a.get("parent")))
            if p is None or p.get("type") != "mesh":
                bad.append("parent mesh %r/%r/%r of linked mesh %r/%r/%r" % (a.get("skin"), sl, a.get("parent"), sk, sl, k))
        if a.get("type") == "clipping" and a.get("end") is not None:
            need(a["end"], sset, "end slot of clipping attachment %r/%r/%r" % (sk, sl, k))
    for sk in doc.get("skins", []):
        for sl in sk.get("attachments") or {}:
            need(sl, sset, "slot listed in skin %r" % sk.get("name"))
    for an, a in doc.get("animations", {}).items():
        for n in a.get("bones", {}):
            need(n, bones, "bone timeline of %r" % an)
        for n in a.get("slots", {}):
            need(n, sset, "slot timeline of %r" % an)
        for n in a.get("ik", {}):
            need(n, iks, "ik timeline of %r" % an)
        for n in a.get("transform", {}):
            need(n, trs, "transform timeline of %r" % an)
        for n in a.get("path", {}):
            need(n, pths, "path timeline of %r" % an)
        for e in a.get("events", []):
            need(e.get("name"), evs, "event key of %r" % an)
        for s, d1 in a.get("deform", {}).items():
            need(s, skins, "deform skin in %r" % an)
            for sl, d2 in d1.items():
                need(sl, sset, "deform slot in %r" % an)
                for k in d2:
                    if (s, sl, k) not in idx:
                        bad.append("deform key of %r -> attachment %r/%r/%r" % (an, s, sl, k))
        for dk in a.get("drawOrder", []):
            offs = dk.get("offsets") or []
            for o in offs:
                need(o.get("slot"), sset, "draw order entry of %r" % an)
            if all(o.get("slot") in sset for o in offs):
                pos = [slots.index(o["slot"]) for o in offs]
                if pos != sorted(set(pos)):
                    bad.append("draw order entries of %r are not in slot order" % an)
                elif apply_offsets(slots, offs) is None:
                    bad.append("draw order key of %r at %s moves slots outside the list or onto each other: %r" % (an, dk.get("time", 0), offs))
    return bad


# ---------------------------------------------------------------- scale tags
def scale_tag(name):
    """Value of the single [scale:x] tag in name, 1.0 if none (generator only makes well-formed ones)."""
    i = name.find("[")
    while i >= 0:
        j = name.find("]", i)
        if j < 0:
            break
        body = name[i + 1:j]
        if ":" in body:
            t, v = body.split(":", 1)
            if t.strip() == "scale":
                return float(v.strip())
        i = name.find("[", i + 1)
    return 1.0


def slot_scale(doc, slot):
    by = {b["name"]: b for b in doc["bones"]}
    r = scale_tag(slot)
    b = slot_by_name(doc)[slot]["bone"]
    while b != "root":
        r *= scale_tag(b)
        b = by[b]["parent"]
    return r
