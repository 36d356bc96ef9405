"""serde: what a Serialize implementation writes, as a structure of text, numbers, lists and records.
Errors of the serializer itself are not followed: every step is taken to succeed."""
from models import *
from terms import SINGLE, VARIANTS
import models as M

S = "serde_core::ser::"


def ser_text(ev, s):
    return mk("app", "ser:text", s)


def ser_int(x):
    return lapp("ser:int", x)


def ser(ev, x, ty):
    """The serialized form of x of type ty."""
    t = strip(ty)
    x = R(ev, x)
    if x.op == "ite":
        return ite(x.a[0], ser(ev, x.a[1], ty), ser(ev, x.a[2], ty))
    if t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::borrow::Cow", "alloc::rc::Rc", "alloc::sync::Arc"):
        return ser(ev, x, t[2][0])
    if t == ("prim", "str") or t[0] == "adt" and t[1] == "alloc::string::String":
        return ser_text(ev, x)
    if t[0] == "prim" and t[1] == "char":
        return ser_text(ev, tchr(x))
    if t[0] == "prim" and t[1] in PRIM_RANGE:
        return ser_int(x)
    if t[0] in ("slice", "array") or t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        et = t[2][0] if t[0] == "adt" else t[1]
        return mk("app", "ser:list", ev.smap(x, lambda y: unit(ser(ev, y, et))))
    if t[0] == "adt" and t[1] == OPT:
        return ite(is_variant(x, OPT, "Some"), ser(ev, proj(x, OPT, "Some", 0), t[2][0]), mk("app", "ser:null"))
    if t[0] == "adt" and t[1] != VALUE:
        v = ev.trait_call(S + "Serialize", "serialize", (t, ("unknown",)), [x, mk("app", "ser:root")], None)
        if v is not None:
            return content(v)
    return lapp("ser:of", x)


def content(v):
    """The form inside the Ok of a serialize call."""
    if v.op == "ite":
        return ite(v.a[0], content(v.a[1]), content(v.a[2]))
    if v.op == "con" and v.a[0] == RES:
        return v.a[2] if v.a[1] == "Ok" else mk("app", "ser:error")
    return lapp("?ser", v)


@model(S + "Serialize::serialize")
def m_serialize(ev, a, t, r):
    return ok(ser(ev, a[0], t[0]))


def Z(name):
    return S + "Serializer::" + name


MODELS[Z("serialize_str")] = lambda ev, a, t, r: ok(ser_text(ev, R(ev, a[1])))
MODELS[Z("serialize_char")] = lambda ev, a, t, r: ok(ser_text(ev, tchr(R(ev, a[1]))))
for _n in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
    MODELS[Z("serialize_" + _n)] = lambda ev, a, t, r: ok(ser_int(R(ev, a[1])))
MODELS[Z("serialize_unit")] = MODELS[Z("serialize_none")] = lambda ev, a, t, r: ok(mk("app", "ser:null"))
MODELS[Z("serialize_some")] = lambda ev, a, t, r: ok(ser(ev, a[1], t[1]))
MODELS[Z("serialize_newtype_struct")] = lambda ev, a, t, r: ok(ser(ev, a[2], t[1]))


@model(Z("collect_str"))
def m_collect_str(ev, a, t, r):
    fmt = ev.temp_ref(NIL)
    M.show_display(ev, fmt, R(ev, a[1]), t[1])
    return ok(ser_text(ev, ev.read_ref(fmt)))


@model(Z("collect_seq"))
def m_collect_seq(ev, a, t, r):
    s = M.seqarg(ev, a[1])
    ty = t[1]
    et = ("unknown",)
    u = strip(ty)
    if u[0] == "adt" and u[2] and u[1] in ("alloc::vec::Vec", "core::slice::iter::Iter"):
        et = u[2][-1]
    elif u[0] == "slice":
        et = u[1]
    if et == ("unknown",):
        return ev.unknown_call(Z("collect_seq"), a, r, t)
    return ok(mk("app", "ser:list", ev.smap(s, lambda y: unit(ser(ev, y, et)))))


@model(Z("serialize_seq"), Z("serialize_tuple"))
def m_seq(ev, a, t, r):
    return ok(con("@ser", "list", NIL))


@model(Z("serialize_struct"), Z("serialize_map"))
def m_struct(ev, a, t, r):
    return ok(con("@ser", "record", NIL))



VARIANTS["@ser"] = ["list", "record"]


def push(ev, ref, variant, x):
    cur = ev.simp(R(ev, ref))

    def go(c):
        if c.op == "ite":
            return ite(c.a[0], go(c.a[1]), go(c.a[2]))
        if c.op == "con":
            return con("@ser", c.a[1], cat(c.a[2], unit(x)))
        return con("@ser", variant, cat(proj(c, "@ser", variant, 0), unit(x)))
    ev.write_ref(ref, go(cur))
    return ok(UNIT)


@model(S + "SerializeSeq::serialize_element", S + "SerializeTuple::serialize_element")
def m_element(ev, a, t, r):
    return push(ev, a[0], "list", ser(ev, a[1], t[1]))


@model(S + "SerializeStruct::serialize_field")
def m_field(ev, a, t, r):
    return push(ev, a[0], "record", tup(R(ev, a[1]), ser(ev, a[2], t[1])))


@model(S + "SerializeMap::serialize_entry")
def m_entry(ev, a, t, r):
    return push(ev, a[0], "record", tup(R(ev, a[1]), ser(ev, a[2], t[2])))


@model(S + "SerializeStruct::skip_field")
def m_skip(ev, a, t, r):
    return ok(UNIT)


@model(*[S + "Serialize%s::end" % x for x in ("Seq", "Tuple", "Struct", "Map")])
def m_end(ev, a, t, r):
    def go(c):
        if c.op == "ite":
            return ite(c.a[0], go(c.a[1]), go(c.a[2]))
        if c.op == "con":
            return mk("app", "ser:" + c.a[1], c.a[2])
        return lapp("?ser:end", c)
    return ok(go(ev.simp(R(ev, a[0]))))
