"""The Spine 3.8 JSON format, as far as the library supports it: attribute -> (kind, assumed value).

NODEF: the format assumes no value (or one that depends on context), so the attribute must never be dropped.
Written from the format documentation, independently of the library's own default tables.
Kinds drive the generator; 'ref'/'name' attributes are filled by the structural generator.
"""


class _NoDef:
    def __repr__(self):
        return "NODEF"


NODEF = _NoDef()

CURVE = {"curve": ("curve", NODEF), "c2": ("num", 0), "c3": ("num", 1), "c4": ("num", 1)}
T = {"time": ("time", 0)}

BONE = {
    "name": ("name", NODEF), "parent": ("name", NODEF), "color": ("color", NODEF), "length": ("num", 0),
    "x": ("num", 0), "y": ("num", 0), "rotation": ("num", 0), "scaleX": ("num", 1), "scaleY": ("num", 1),
    "shearX": ("num", 0), "shearY": ("num", 0), "transform": ("transform", "normal"),
    "inheritRotation": ("true", NODEF), "inheritScale": ("true", NODEF),
}
SLOT = {
    "name": ("name", NODEF), "bone": ("name", NODEF), "attachment": ("name", NODEF), "color": ("slotcolor", NODEF),
    "dark": ("rgb", NODEF), "blend": ("blend", NODEF),
}
REGION = {
    "x": ("num", 0), "y": ("num", 0), "rotation": ("num", 0), "scaleX": ("num", 1), "scaleY": ("num", 1),
    "width": ("num", NODEF), "height": ("num", NODEF), "name": ("image", NODEF), "path": ("image", NODEF),
    "color": ("color", NODEF), "type": ("fixed", "region"),
}
MESH = {
    "type": ("fixed", NODEF), "uvs": ("nums", NODEF), "triangles": ("ints", NODEF), "vertices": ("nums", NODEF),
    "hull": ("int", NODEF), "edges": ("ints", NODEF), "width": ("num", NODEF), "height": ("num", NODEF),
    "name": ("image", NODEF), "path": ("image", NODEF), "color": ("color", NODEF),
}
LINKED = {
    "type": ("fixed", NODEF), "parent": ("name", NODEF), "skin": ("name", NODEF), "deform": ("bool", True),
    "width": ("num", NODEF), "height": ("num", NODEF), "name": ("image", NODEF), "path": ("image", NODEF),
    "color": ("color", NODEF),
}
PATHATT = {
    "type": ("fixed", NODEF), "lengths": ("nums", NODEF), "vertexCount": ("posint", NODEF), "vertices": ("nums", NODEF),
    "name": ("str", NODEF), "color": ("color", NODEF), "closed": ("bool", False), "constantSpeed": ("bool", True),
}
BBOX = {"type": ("fixed", NODEF), "vertexCount": ("posint", NODEF), "vertices": ("nums", NODEF), "color": ("color", NODEF)}
POINT = {"type": ("fixed", NODEF), "x": ("num", 0), "y": ("num", 0), "rotation": ("num", 0), "color": ("color", NODEF)}
CLIP = {"type": ("fixed", NODEF), "end": ("name", NODEF), "vertexCount": ("posint", NODEF), "vertices": ("nums", NODEF), "color": ("color", NODEF)}
ATT = {None: REGION, "region": REGION, "mesh": MESH, "linkedmesh": LINKED, "path": PATHATT, "boundingbox": BBOX, "point": POINT, "clipping": CLIP}

IK = {
    "name": ("name", NODEF), "order": ("int", 0), "bones": ("names", NODEF), "target": ("name", NODEF), "mix": ("num", 1),
    "bendPositive": ("bool", True), "softness": ("num", 0), "compress": ("bool", False), "stretch": ("bool", False),
    "uniform": ("bool", False),
}
TRANSFORM = {
    "name": ("name", NODEF), "order": ("int", 0), "bones": ("names", NODEF), "target": ("name", NODEF),
    "rotation": ("num", 0), "x": ("num", 0), "y": ("num", 0), "scaleX": ("num", 0), "scaleY": ("num", 0),
    "shearY": ("num", 0), "rotateMix": ("num", 1), "translateMix": ("num", 1), "scaleMix": ("num", 1), "shearMix": ("num", 1),
    "local": ("bool", False), "relative": ("bool", False),
}
PATH = {
    "name": ("name", NODEF), "order": ("int", 0), "bones": ("names", NODEF), "target": ("name", NODEF), "skin": ("bool", False),
    "positionMode": ("positionMode", "percent"), "spacingMode": ("spacingMode", "length"), "rotateMode": ("rotateMode", "tangent"),
    "rotation": ("num", 0), "position": ("num", 0), "spacing": ("num", 0), "rotateMix": ("num", 1), "translateMix": ("num", 1),
}
EVENT = {"int": ("int", 0), "float": ("num", 0), "string": ("str", "")}
EVENTKEY = dict(T, **{
    "name": ("name", NODEF), "int": ("int", NODEF), "float": ("num", NODEF), "string": ("str", NODEF),
    "audio": ("strne", NODEF), "volume": ("num", 1), "balance": ("num", 0),
})
K_ROTATE = dict(T, angle=("num", 0), **CURVE)
K_TRANSLATE = dict(T, x=("num", 0), y=("num", 0), **CURVE)
K_SCALE = dict(T, x=("num", 1), y=("num", 1), **CURVE)
K_SHEAR = K_TRANSLATE
K_ATT = dict(T, name=("name", None))
K_COLOR = dict(T, color=("color", NODEF), **CURVE)
K_TWO = dict(T, light=("color", NODEF), dark=("rgb", NODEF), **CURVE)
K_IK = dict(T, mix=("num", 1), bendPositive=("bool", True), compress=("bool", False), stretch=("bool", False), **CURVE)
K_TRANSFORM = dict(T, rotateMix=("num", 1), translateMix=("num", 1), scaleMix=("num", 1), shearMix=("num", 1), **CURVE)
K_POSITION = dict(T, position=("num", 0), **CURVE)
K_SPACING = dict(T, spacing=("num", 0), **CURVE)
K_MIX = dict(T, rotateMix=("num", 1), translateMix=("num", 1), **CURVE)
K_DEFORM = dict(T, offset=("int", 0), vertices=("nums", NODEF), **CURVE)
K_DRAW = dict(T)
OFFSET = {"slot": ("name", NODEF), "offset": ("int", NODEF)}

TIMELINES = {
    "bones": {"rotate": K_ROTATE, "translate": K_TRANSLATE, "scale": K_SCALE, "shear": K_SHEAR},
    "slots": {"attachment": K_ATT, "color": K_COLOR, "twoColor": K_TWO},
    "path": {"position": K_POSITION, "spacing": K_SPACING, "mix": K_MIX},
}
