"""Additions to documents: unrelated ones (C33) and growth (any check)."""
import copy

from spv import gen, model

W = [w for w in gen.WORDS if "[" not in w and w != "None"]
KINDS = ["bone", "slot", "event", "skin", "constraint", "content", "skin content", "slot"]


def grow(g, doc, cfg):
    """The document with 3-12 more things, often many of one kind."""
    kinds = KINDS if cfg.shared == 0 else KINDS + ["twin", "twin"]
    if g.bool(0.6):
        kinds = [g.pick(["slot", "bone", "skin"] if cfg.shared == 0 else ["twin", "twin", "slot", "bone", "skin"])]
    adds = [[g.pick(kinds), g.pick(W) if g.bool(0.3) else "more", i * 7 + g.int(0, 6), i % 3 == 0] for i in range(g.weighted([(2, 3), (3, 7), (2, 12)]))]
    if g.bool(0.4):
        adds += [["tint", "", g.int(0, 99), g.bool()] for _ in range(g.int(1, 4))]
    if g.bool(0.25) and doc.get("animations"):
        adds.append(["copies", "more", g.int(0, 9), g.bool(), g.pick([1, 2, 4, 9])])
    return extend(doc, adds)[0]


def mentioned(doc):
    """Every name a document mentions anywhere."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                out.add(k)
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
        elif isinstance(x, str):
            out.add(x)
    for s in ("bones", "slots", "skins", "ik", "transform", "path", "events", "animations"):
        walk(doc.get(s))
    return out


def extend(doc, adds):
    """The document with additions; returns it and the names added, per kind. The additions come last in their lists."""
    d = copy.deepcopy(doc)
    used = mentioned(doc)
    new = {k: [] for k in ("bone", "slot", "att", "event", "skin", "con", "anim")}
    new["copy"] = {}  # copy -> original

    def fresh(w):
        n = w
        i = 0
        while n in used:
            i += 1
            n = "%s+%d" % (w, i)
        used.add(n)
        return n

    def default_skin(name="default"):
        s = next((s for s in d["skins"] if s["name"] == name), d["skins"][0])
        return s.setdefault("attachments", {})
    for kind, w, num, flag, *count in adds:
        bones = [b["name"] for b in d["bones"]]
        if kind == "bone":
            n = fresh(w)
            d["bones"].append({"name": n, "parent": bones[num % len(bones)], "x": num})
            new["bone"].append(n)
        elif kind == "slot" and doc["skins"]:
            n, a = fresh(w), fresh("att " + w)
            d.setdefault("slots", []).append({"name": n, "bone": bones[num % len(bones)], "attachment": a})
            default_skin()[n] = {a: {"width": num, "height": 5, "path": fresh("img " + w)} if flag else {"type": "point", "x": 1.5}}
            new["slot"].append(n)
            new["att"].append(a)
            names = sorted(d.get("animations") or {})
            if names and num % 2:
                tl = [{"attachment": [{"name": None}, {"time": 1, "name": a}]}, {"color": [{"color": "ffffff00"}, {"time": 2, "color": "ffffffff"}]},
                      {"attachment": [{"name": a}], "twoColor": [{"light": "ffffff80", "dark": "000000"}]}][num % 3]
                d["animations"][names[num % len(names)]].setdefault("slots", {})[n] = tl
        elif kind == "event":
            n = fresh(w)
            d.setdefault("events", {})[n] = {"int": num} if flag else {}
            new["event"].append(n)
        elif kind == "skin":
            n = fresh(w)
            d["skins"].append({"name": n})
            new["skin"].append(n)
        elif kind == "skin content" and new["skin"] and new["slot"]:
            s = next(s for s in d["skins"] if s["name"] == new["skin"][num % len(new["skin"])])
            i = num % len(new["slot"])
            s.setdefault("attachments", {}).setdefault(new["slot"][i], {})[new["att"][i]] = {"width": 3, "height": num, "path": fresh("img " + w)}
        elif kind == "constraint":
            n = fresh(w)
            sec = "transform" if flag or len(bones) < 2 else "ik"
            d.setdefault(sec, []).append({"name": n, "bones": [bones[num % len(bones)]], "target": bones[0], "order": num % 5})
            new["con"].append(n)
        elif kind == "content" and d.get("animations"):
            names = sorted(d["animations"])
            a = d["animations"][names[num % len(names)]]
            if new["slot"]:
                i = num % len(new["slot"])
                a.setdefault("slots", {})[new["slot"][i]] = {"attachment": [{"name": None}, {"time": 1, "name": new["att"][i]}]} if flag else {"color": [{"color": "ffffff00"}, {"time": 2, "color": "ffffffff"}]}
            if new["bone"]:
                a.setdefault("bones", {})[new["bone"][num % len(new["bone"])]] = {"rotate": [{"angle": num}]}
            if new["event"]:
                a["events"] = sorted((a.get("events") or []) + [{"time": 1.5, "name": new["event"][num % len(new["event"])]}], key=lambda k: k.get("time") or 0)
        elif kind == "animation":
            n = fresh(w)
            d.setdefault("animations", {})[n] = {"slots": {s: {"attachment": [{"name": None}]} for s in model.slot_names(doc)[:num % 3]}}
            new["anim"].append(n)
        elif kind == "twin" and d.get("slots"):
            s = d["slots"][num % len(d["slots"])]
            n, of = fresh(w), s["name"]
            d["slots"].append(dict(copy.deepcopy(s), name=n))
            for places in [k["attachments"] for k in d["skins"] if k.get("attachments")] + [a[g] for a in (d.get("animations") or {}).values() for g in ("slots",) if a.get(g)] + \
                    [x for a in (d.get("animations") or {}).values() for x in (a.get("deform") or {}).values() if flag]:
                if of in places:
                    places[n] = copy.deepcopy(places[of])
        elif kind == "tint" and d.get("animations") and d.get("slots"):  # of a slot that was there
            names = sorted(d["animations"])
            tl = d["animations"][names[num % len(names)]].setdefault("slots", {}).setdefault(d["slots"][num % len(d["slots"])]["name"], {})
            if flag:
                tl.setdefault("twoColor", [{"light": "ffffff80", "dark": "000000"}, {"time": 1, "light": "ffffffff", "dark": "000000"}][:1 + num % 2])
            else:
                tl.setdefault("attachment", [{"name": None}])
        elif kind == "copies" and doc.get("animations"):  # comes last
            names = sorted(doc["animations"])
            copies = {}
            for i in range(count[0]):
                n, of = fresh(w), names[(num + i) % len(names) if count[0] < 9 else num % len(names)]
                copies[n] = copy.deepcopy(d["animations"][of])
                new["copy"][n] = of
            d["animations"] = {**copies, **d["animations"]} if flag else {**d["animations"], **copies}
    return d, new
