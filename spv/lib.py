"""Access to the code under test in /repo, only through its public interface."""
import importlib
import os
import sys
import traceback

from spv.core import Violation, Hang

REPO = os.path.realpath(os.environ.get("SPV_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
sys.path.insert(0, REPO)


def guard(what, fn, *args, **kw):
    """Call into the library; an exception it raises on a valid input is a violation."""
    try:
        return fn(*args, **kw)
    except Hang:
        raise
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[1:][-4:]))
        raise Violation("%s raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:300], where)) from e


def refused(what, fn, *args, **kw):
    """Call that must raise; returns the exception."""
    try:
        r = fn(*args, **kw)
    except Hang:
        raise
    except Exception as e:
        return e
    raise Violation("%s was accepted but must be refused (returned %r)" % (what, type(r).__name__))


_NAMES = {
    "SpineAnimationEditor": "spine_json_lib",
    "SpineAnimationData": "spine_json_lib.data.spine_anim_data", "JsonSpineAnimationData": "spine_json_lib.data.spine_anim_data",
    "SpineParsingException": "spine_json_lib.data.spine_exceptions", "SpineJsonEditorError": "spine_json_lib.data.spine_exceptions",
    "SpineVersion": "spine_json_lib.data.spine_version_type",
    "SpineGraphParser": "spine_json_lib.deserializer.spine_nodes", "SpineNodeFactory": "spine_json_lib.deserializer.spine_nodes",
    "DAGraph": "spine_json_lib.graph.dagraph", "INodeFactory": "spine_json_lib.graph.factories", "IGraphParser": "spine_json_lib.graph.factories", "SpamNode": "spine_json_lib.graph.spamnode",
    "SpineGraphContainer": "spine_json_lib.spine_graph_container", "get_tags_from_name": "spine_json_lib.utils",
}


def __getattr__(name):
    """Names of the library, imported when a check first needs them."""
    if name not in _NAMES:
        raise AttributeError(name)
    obj = getattr(importlib.import_module(_NAMES[name]), name)
    globals()[name] = obj
    return obj


import spine_json_lib  # noqa: E402
from spine_json_lib import SpineAnimationEditor  # noqa: E402

_f = os.path.realpath(spine_json_lib.__file__)
if not _f.startswith(REPO + os.sep):
    raise RuntimeError("wrong spine_json_lib under test: %s" % _f)


def editor(doc):
    return guard("loading the document", SpineAnimationEditor, doc)


def export(ed):
    return guard("exporting", ed.to_json_data)


def images(ed):
    return guard("reading image references", lambda: ed.images_references)


def apply_op(ed, op):
    """Apply one edit operation (valid by construction) and return (editor, result)."""
    k = op[0]
    if k == "erase_anims":
        r = guard("erase_animations(%r)" % (op[1],), ed.erase_animations, list(op[1]), strict_mode=op[2], is_safe_mode=op[3])
    elif k == "erase_skins":
        r = guard("erase_skins(%r)" % (op[1],), ed.erase_skins, list(op[1]), is_safe_mode=op[2])
    elif k == "clean":
        r = guard("clean_animation()", ed.clean_animation)
    elif k == "scale":
        r = guard("scale_animation", ed.scale_animation, op[1], op[2])
    elif k == "reload":
        d = export(ed)
        return guard("reloading the export", SpineAnimationEditor, d), None
    else:
        raise AssertionError(k)
    return ed, r
