"""C19, C20: texts of locations."""
from ctx import *
from c_eval import V, field

PATH = "serde_json_path_core::path::NormalizedPath"


def shown(cx, fn, args=None):
    """What a Display/fmt function adds to the text, and its result."""
    v, outs, notes, _ = cx.summarize(fn, args)
    return v, outs.get("p1"), notes


def C20(cx):
    f = cx.inherent("NormalizedPath", "to_json_pointer")
    cx.require("NormalizedPath::to_json_pointer", cx.value(f),
               cx.value(cx.spec("text::pointer"), [field(cx, V("self"), PATH, "0")]), where=where(f))


def C19(cx):
    f = cx.method("Display", "NormalizedPath", "fmt")
    g = cx.spec("text::normalized")
    v, o, _ = shown(cx, f)
    w, p, _ = shown(cx, g, [field(cx, V("self"), PATH, "0"), V("p1")])
    cx.require("<NormalizedPath as Display>::fmt: result", v, w, where=where(f))
    cx.require("<NormalizedPath as Display>::fmt: text", o, p, where=where(f))
