#!/usr/bin/env python3
"""Writes ../src/zoo_gen.rs: the enum shapes the simulations run on (deterministic, output committed)."""
import os

shapes = []   # dicts


def add(name, discs, repr=None, rust=None, ops=True, supers=True, ser=None, deny=False, style="auto",
        fam=None, ver=0, group="core", attrs=()):
    shapes.append(dict(name=name, discs=list(discs), repr=repr, rust=rust, ops=ops, supers=supers,
                       ser=ser, deny=deny, style=style, fam=fam, ver=ver, group=group, attrs=attrs))


# ---- core: shapes of the bit set itself -------------------------------------------------------
add("Empty", [])
for n in (1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 160, 192, 193, 256, 257, 300):
    add(f"D{n}", range(n))
for d in (5, 7, 8, 15, 31, 32, 62, 63, 64, 127, 128, 200):
    add(f"One{d}", [d])
add("Sp7", [0, 7])
add("Sp8", [0, 8])
add("Sp16", [3, 15, 16])
add("Sp32", [0, 1, 30, 31])
add("Sp33", [2, 31, 32])
add("Sp63", [0, 63])
add("Sp64", [0, 64])
add("Sp65", [63, 64])
add("SpHi", [64, 65, 66, 100, 127])
add("Sp127", [10, 20, 30, 127])
add("Sp128", [0, 1, 2, 128])
add("SpEdge", [0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255, 256])
add("SpGiant", range(100, 900, 100))
add("SpGap", [5, 700, 701, 703, 704, 1000])
add("Sp4095", [0, 63, 2048, 4095])
add("Ooo", [200, 3, 64, 0, 129, 63, 1], style="dec")
add("Desc", list(range(20, -1, -1)), style="hex")
add("Mixed", [10, 11, 12, 3, 4, 64, 65, 0], style="auto")
add("MixHex", [0x1f, 0x20, 0x7, 0x3f, 0x40], style="hex")
add("Lits", [5, 15, 10, 64, 66, 0x41, 1000], style="lits")
add("Named", [4, 2, 130], attrs=['crate_name = "enumset"'])
add("Wide9", list(range(0, 576, 7)) + [575])
add("Words", range(63, 1024, 64))
add("Big", [0, 63, 16383, 16384, 65535, 65536, 70000])
add("Raw", [0, 1, 2, 33, 64], style="raw")
# declared set representation
add("R8", range(8), repr="u8")
add("R8s", [1, 4, 6], repr="u8")
add("R16", range(9), repr="u16")
add("R16f", range(16), repr="u16")
add("R16s", [0, 2, 3], repr="u16")
add("R32", [0, 5, 17, 31], repr="u32")
add("R32f", range(32), repr="u32")
add("R32s", range(6), repr="u32")
add("R64", [0, 1, 31, 32, 33, 62, 63], repr="u64")
add("R64f", range(64), repr="u64")
add("R64s", range(10), repr="u64")
add("R128", [0, 1, 62, 63, 64, 65, 126, 127], repr="u128")
add("R128f", range(128), repr="u128")
add("R128s", range(3), repr="u128")
add("R128m", range(60, 70), repr="u128")
add("R128lo", [5, 9], repr="u128")
add("R128hi", [70, 127], repr="u128")
add("R8one", [3], repr="u8")
add("REmpty", [], repr="u32")
add("A1", [0, 1, 2], repr="array")
add("A8", range(8), repr="array")
add("A63", [0, 7, 31, 62], repr="array")
add("A64", range(64), repr="array")
add("A65", [0, 1, 63, 64], repr="array")
add("A128", range(128), repr="array")
add("A130", [0, 64, 127, 128, 129], repr="array")
# representation of the enum itself
add("Ru8", [0, 1, 100, 200, 255], rust="u8")
add("Ru8d", range(40), rust="u8", repr="u64")
add("Ru16", [0, 255, 256, 300], rust="u16")
add("Ru32", [1, 2, 33, 65], rust="u32")
add("Ru64", [0, 31, 32, 63], rust="u64")
add("Rusize", range(12), rust="usize")
add("Ri8", [0, 1, 64, 126, 127], rust="i8")
add("Ri16", [0, 9, 15], rust="i16", repr="u16")
add("Ri32", [2, 6, 130], rust="i32")
add("Ri64", [3, 40, 41], rust="i64")
add("Risize", [0, 20, 90], rust="isize")
add("Rc", range(10), rust="C")
add("Rc2", [7, 70, 170], rust="C")
add("RRust", range(5), rust="Rust")
# options of the derive
add("NoOps", range(11), ops=False)
add("NoOpsArr", [0, 63, 64, 190], ops=False)
add("NoSuper", range(13), supers=False)
add("NoBoth", [0, 33, 66, 140], ops=False, supers=False)

# ---- ser: serialization attributes ---------------------------------------------------------------
big = {"u8": [0, 1, 2, 5, 7], "u16": [0, 3, 8, 15], "u32": [0, 7, 16, 31], "u64": [0, 8, 33, 63],
       "u128": [0, 63, 64, 127]}
full = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
for dn in (False, True):
    s = "X" if dn else ""
    for k in ("u8", "u16", "u32", "u64", "u128"):
        K = k.upper()
        add(f"S{K}{s}", big[k], ser=k, deny=dn, group="ser")
        add(f"S{K}Few{s}", [0, 1, 3], ser=k, deny=dn, group="ser")
        if dn:
            add(f"S{K}Full{s}", range(full[k]), ser=k, deny=dn, group="ser")
    add(f"SDef8{s}", [1, 2, 6], deny=dn, group="ser")
    add(f"SDef16{s}", [0, 1, 9, 14], deny=dn, group="ser")
    add(f"SDef32{s}", [0, 17, 30], deny=dn, group="ser")
    add(f"SDef64{s}", [1, 2, 40, 62], deny=dn, group="ser")
    add(f"SDef128{s}", [0, 64, 100, 126], deny=dn, group="ser")
    add(f"SDef200{s}", [0, 1, 63, 64, 128, 200], deny=dn, group="ser")
    add(f"SDef256{s}", range(256), deny=dn, group="ser")
    add(f"SDef700{s}", [5, 64, 320, 699], deny=dn, group="ser")
    add(f"SArr{s}", [0, 1, 2, 5], ser="array", deny=dn, group="ser")
    add(f"SArr64{s}", [0, 1, 62, 63], ser="array", deny=dn, group="ser")
    add(f"SArr128{s}", [0, 63, 64, 127], ser="array", deny=dn, group="ser")
    add(f"SArr300{s}", [1, 65, 130, 195, 260, 299], ser="array", deny=dn, group="ser")
    add(f"SArrR16{s}", [0, 9, 11], repr="u16", ser="array", deny=dn, group="ser")
    add(f"SArrR128{s}", [2, 63, 64, 101], repr="u128", ser="array", deny=dn, group="ser")
    add(f"SArrA{s}", range(8), repr="array", ser="array", deny=dn, group="ser")
    add(f"SIntA{s}", [0, 3, 6], repr="array", deny=dn, group="ser")
    add(f"SIntA64{s}", [0, 3, 60], repr="array", ser="u64", deny=dn, group="ser")
    add(f"SIntA128{s}", [0, 64, 127], repr="array", ser="u128", deny=dn, group="ser")
    add(f"SR32as64{s}", [0, 15, 31], repr="u32", ser="u64", deny=dn, group="ser")
    add(f"SR128as8{s}", [0, 1, 7], repr="u128", ser="u8", deny=dn, group="ser")
    add(f"SR64as128{s}", [0, 20, 63], repr="u64", ser="u128", deny=dn, group="ser")
    add(f"SR8as32{s}", range(8), repr="u8", ser="u32", deny=dn, group="ser")
    add(f"SList{s}", [0, 1, 2, 3, 4, 9], ser="list", deny=dn, group="ser")
    add(f"SMap{s}", [0, 1, 2, 3, 4, 9], ser="map", deny=dn, group="ser")
add("SList200", [7, 3, 200, 64, 0], ser="list", group="ser")
add("SMap200", [7, 3, 200, 64, 0], ser="map", group="ser")
add("SListD70", range(70), ser="list", group="ser")
add("SMapD70", range(70), ser="map", group="ser")
add("SListR", [1, 5, 30], repr="u32", ser="list", group="ser")
add("SMapA", [1, 5, 30], repr="array", ser="map", group="ser")
add("SListNoOps", [0, 4, 8], ser="list", ops=False, group="ser")
add("SMapNoOps", [0, 4, 8], ser="map", ops=False, group="ser")
add("SNoSuper", [0, 4, 80], supers=False, ops=False, group="ser")
add("SEmpty", [], group="ser", ser="u16")
# deprecated spellings; the list one wins
add("SLegList", [0, 2, 9, 70], ser="list", group="ser", attrs=["serialize_as_list"])
add("SLegMap", [0, 2, 9, 70], ser="map", group="ser", attrs=["serialize_as_map"])
add("SLegBoth", [1, 3, 5], ser="list", group="ser", attrs=["serialize_as_map", "serialize_as_list"])
add("SArr1500", [0, 63, 64, 512, 1023, 1024, 1500], group="ser")
add("SArrGap", [640, 641, 703], ser="array", group="ser")
add("SArrGapX", [640, 641, 703], ser="array", deny=True, group="ser")
add("SListWide", range(0, 600, 40), ser="list", group="ser")
add("SMapWide", range(0, 600, 40), ser="map", group="ser")
add("SBig", [1, 64, 16384, 20000], group="ser")
add("SOoo", [100, 3, 64, 0, 126, 63, 1], group="ser")
add("SOooX", [30, 3, 16, 0], ser="u32", deny=True, group="ser")
# The default serialized width, with the last variant exactly on and just past every boundary.
for n, deny in ((7, True), (8, False), (15, True), (16, False), (31, True), (32, False), (63, True), (64, False), (127, False), (128, False)):
    add(f"SMax{n}", [n, 0, n // 2, 1], deny=deny, group="ser")
# Enums with one variant.
for n in (0, 9, 64, 300):
    add(f"SOne{n}", [n], deny=n == 0, group="ser")
add("SOneList", [5], ser="list", group="ser")
add("SOneMap", [70], ser="map", group="ser")

# ---- ver: versions of one enum, for mixed-version clusters -----------------------------------------
VERS = {
    "u8": [[0, 1, 2], [0, 1, 2, 5, 7], [1, 2, 3, 4, 5, 6, 7]],
    "u16": [[0, 8, 9], [0, 1, 8, 9, 15], [3, 8, 15]],
    "u32": [[0, 30], [0, 8, 30, 31], [1, 8, 16, 31]],
    "u64": [[0, 40], [0, 1, 40, 63], [33, 62, 63]],
    "u128": [[0, 70], [0, 1, 64, 70, 127], [63, 64, 126]],
    "array": [[0, 1, 40], [0, 1, 40, 63, 64, 130], [2, 63, 190, 191, 256]],
    "def": [[0, 5], [0, 5, 12], [0, 5, 12, 50], [5, 12, 50, 100]],
    "defarr": [[0, 130], [0, 64, 130, 191], [64, 191, 192, 500]],
    "list": [[0, 1, 2], [0, 1, 2, 3, 70], [2, 3, 70, 140]],
    "map": [[0, 1, 2], [0, 1, 2, 3, 70], [2, 3, 70, 140]],
}
for k, vs in VERS.items():
    for dn in (False, True):
        for i, v in enumerate(vs):
            ser = None if k in ("def", "defarr") else k
            add(f"V{k.capitalize()}{'X' if dn else ''}{i+1}", v, ser=ser, deny=dn, fam=k, ver=i + 1, group="ver")


def serkind(s):
    if s["ser"]:
        return s["ser"]
    m = max(s["discs"], default=0)
    for w in (8, 16, 32, 64, 128):
        if m < w:
            return f"u{w}"
    return "array"


def array_backed(s):
    m = max(s["discs"], default=0)
    return s["repr"] == "array" or (s["repr"] is None and m >= 64)


def gated(s):
    """Shapes that did not compile before the repairs."""
    k = serkind(s)
    return s["deny"] and (k == "array" or (k[0] == "u" and array_backed(s)))


def lit(d, style, i):
    if style == "hex":
        return hex(d)
    if style == "lits":
        return [bin(d), oct(d), "_".join(str(d)), f"{d}isize", "0x0_" + format(d, "X")][i % 5]
    return str(d)


out = ["// Generated by tools/gen_zoo.py; do not edit.", "use super::*;", ""]
for s in shapes:
    k = serkind(s)
    if gated(s):
        out.append('#[cfg(feature = "deny_array_shapes")]')
    if k in ("list", "map"):
        out.append("#[derive(serde::Serialize, serde::Deserialize)]")
    if not s["supers"]:
        out.append("#[derive(Clone, Copy, PartialEq, Eq)]")
    out.append("#[derive(EnumSetType)]")
    o = []
    if s["repr"]:
        o.append(f'repr = "{s["repr"]}"')
    o += s["attrs"]
    if s["ser"] and not any(a.startswith("serialize_as") for a in s["attrs"]):
        o.append(f'serialize_repr = "{s["ser"]}"')
    if s["deny"]:
        o.append("serialize_deny_unknown")
    if not s["ops"]:
        o.append("no_ops")
    if not s["supers"]:
        o.append("no_super_impls")
    if o:
        out.append(f"#[enumset({', '.join(o)})]")
    if s["rust"]:
        out.append(f"#[repr({s['rust']})]")
    vs, cur = [], 0
    # Raw identifiers, attributes and comments on variants.
    raw = ["r#fn", "r#type", "r#match", "r#async", "r#dyn"]
    name = lambda i, d: raw[i] if s["style"] == "raw" else f"V{d}"
    for i, d in enumerate(s["discs"]):
        if s["style"] in ("auto", "raw") and d == cur:
            vs.append(name(i, d))
        else:
            vs.append(f"{name(i, d)} = {lit(d, s['style'], i)}")
        if s["style"] == "raw":
            vs[-1] = ["/// documented\n", "#[allow(dead_code)] ", "#[cfg(all())] ", "", "#[doc(hidden)] "][i] + vs[-1]
        cur = d + 1
    out.append(f"pub enum {s['name']} {{ {', '.join(vs)} }}")
    if gated(s):
        out.append('#[cfg(feature = "deny_array_shapes")]')
    names = ", ".join(name(i, d) for i, d in enumerate(s["discs"]))
    extra = []
    if s["discs"]:
        extra.append("const_macros!();")
    if s["ops"] and s["discs"]:
        extra.append("ops!();")
    if s["repr"] and s["repr"] != "array":
        extra.append(f"with_repr!({s['repr']});")
    if k == "list":
        extra.append("ref_list!();")
    if k == "map":
        extra.append("ref_map!();")
    kind = "variant_empty!" if not s["discs"] else "variant!"
    out.append(f"{kind}({s['name']} [{names}] {{ {' '.join(extra)} }});")
    out.append("")

K = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "u128": "U128", "list": "List", "map": "Map", "array": "Array"}
out.append("pub static SHAPES: &[ShapeMeta] = &[")
for s in shapes:
    if gated(s):
        out.append('    #[cfg(feature = "deny_array_shapes")]')
    rb = int(s["repr"][1:]) if s["repr"] and s["repr"] != "array" else 0
    fam = f'"{s["fam"]}"' if s["fam"] else '""'
    out.append(f'    ShapeMeta {{ name: "{s["name"]}", declared: &{s["discs"]}, ser: SerKind::{K[serkind(s)]}, '
               f'deny: {str(s["deny"]).lower()}, ops: {str(s["ops"]).lower()}, repr_bits: {rb}, fam: {fam}, ver: {s["ver"]}, '
               f'group: Group::{s["group"].capitalize()} }},')
out.append("];")
for g in ("core", "ser", "ver"):
    plain = [s["name"] for s in shapes if s["group"] == g and not gated(s)]
    gate = [s["name"] for s in shapes if s["group"] == g and gated(s)]
    out.append(f"#[macro_export]\nmacro_rules! for_{g}_shapes {{ ($m:ident) => {{ $crate::gated_{g}!{{$m {' '.join(plain)}}} }} }}")
    out.append(f'#[cfg(feature = "deny_array_shapes")]\n#[macro_export]\nmacro_rules! gated_{g} {{ ($m:ident $($t:ident)*) => {{ $m!{{$($t)* {" ".join(gate)}}} }} }}')
    out.append(f'#[cfg(not(feature = "deny_array_shapes"))]\n#[macro_export]\nmacro_rules! gated_{g} {{ ($m:ident $($t:ident)*) => {{ $m!{{$($t)*}} }} }}')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "src", "zoo_gen.rs")
open(p, "w").write("\n".join(out) + "\n")
print(len(shapes), "shapes;", {g: sum(s["group"] == g for s in shapes) for g in ("core", "ser", "ver")})
