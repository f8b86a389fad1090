#!/usr/bin/env python3
"""Generates harness/corpus/src/lib.rs: the corpus of types, from one description each, as
 - Rust types with yaserde's derives,
 - schemas for the reference model,
 - conversions between Rust values and model values,
 - a table of operations.
Member syntax (struct):  ident:Type[|opt]*      opts: attr text cdata flat skip name=x ns=p
                          skipif=pred def=TEXT (scalar) def!RUST-Val-EXPRESSION
Variant syntax (enum):   Ident[:Payload][|opt]*  opts: name=x ns=p flat    first variant is default unless `*`
"""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SC = {"String": "Str", "bool": "Bool", "i8": "I8", "u8": "U8", "i16": "I16", "u16": "U16", "i32": "I32",
      "u32": "U32", "i64": "I64", "u64": "U64", "f32": "F32", "f64": "F64"}
SCALARS = list(SC)
types = []          # dicts
byname = {}

def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

def opt(x):
    return "None" if x is None else f"Some({q(x)})"

def short(path):
    return path.split("::")[-1].strip()

def parse_ty(t):
    """-> (mult, base rust type)"""
    t = t.strip()
    m = re.match(r"^(?:::?)?(?:std::option::|core::option::)?Option(?:::)?<(.*)>$", t)
    if m:
        return "Opt", m.group(1).strip()
    m = re.match(r"^(?:::?)?(?:std::vec::)?Vec(?:::)?<(.*)>$", t)
    if m:
        return "Vec", m.group(1).strip()
    return "One", t

def base_of(b):
    s = short(b) if "<" not in b else b
    if s in SC:
        return f"Base::Sc(Sc::{SC[s]})"
    if s not in byname and b not in byname:
        raise SystemExit(f"unknown type {b}")
    return f"Base::Ty({byname.get(b, byname.get(s))})"

def raw(ident):
    return ident[2:] if ident.startswith("r#") else ident

def opts(parts):
    o = {}
    for p in parts:
        if p.startswith("def!"):
            o["def"] = p[4:]
        elif "=" in p:
            k, v = p.split("=", 1)
            o[k] = f"Val::s({q(v)})" if k == "def" else v
        else:
            o[p] = True
    return o

def common(kind, rust, **kw):
    d = dict(kind=kind, rust=rust, name=None, ns=None, dns=None, nss=[], flatten=False, tag=None,
             ser=True, de=True, rt=True, groups="", decl=None, mod=None, macro=False, generic=None, depth=None)
    for k, v in kw.items():
        if k not in d:
            raise SystemExit(f"{rust}: {k}?")
        d[k] = v
    d["id"] = len(types)
    byname[rust] = d["id"]
    types.append(d)
    return d

def S(rust, fields="", **kw):
    d = common("struct", rust, **kw)
    fs = []
    for f in [x.strip() for x in fields.split(";") if x.strip()]:
        head, *o = [x.strip() for x in f.split("|")]
        ident, ty = [x.strip() for x in head.split(":", 1)]
        fs.append((ident, ty, opts(o)))
    d["fields"] = fs

def E(rust, variants, **kw):
    d = common("enum", rust, **kw)
    vs = []
    dflt = 0
    for i, v in enumerate([x.strip() for x in variants.split(";") if x.strip()]):
        head, *o = [x.strip() for x in v.split("|")]
        if head.startswith("*"):
            dflt = i
            head = head[1:]
        if "{" in head:
            # named members: in the schema a payload whose members stand in the enum's own element
            ident, _, fields = head.rstrip("}").partition("{")
            hidden = f"{rust}_{ident}"
            vs.append((ident.strip(), hidden, dict(opts(o), named=True)))
            S(hidden, fields.replace(",", ";").replace("/", "|"), ser=False, de=False, rt=False, ns=d["ns"], dns=d["dns"], nss=d["nss"])
            types[-1]["kind"] = "hidden"
            continue
        ident, _, ty = head.partition(":")
        vs.append((ident.strip(), ty.strip() or None, opts(o)))
    d["variants"] = vs
    d["dflt"] = dflt

def B(rust, sc):
    """a built-in type that is only written, and stands for its text"""
    common("builtin", rust, ser=False, de=False, rt=False)
    types[-1]["sc"] = sc

def P(rust, sc, how="prim", **kw):
    d = common(how, rust, **kw)
    d["sc"] = sc

# ============================================================================ the corpus
# --- leaves
S("Leaf", "a:String", groups="io")
S("LeafN", "n:u32")
S("LeafO", "o:Option<u32>")
S("LeafV", "i:Vec<u8>")
S("LeafA", "x:u32|attr", groups="io")
S("LeafAS", "s:String|attr; t:Option<String>|attr", groups="str")
S("LeafT", "t:String|text", groups="io str")
S("LeafAT", "x:Option<u32>|attr; t:String|text", groups="str")
S("LeafOT", "t:Option<String>|text")
S("Empty", "")
S("Two", "a:String; b:u32", groups="io")
S("ANode", "id:String|attr; v:u8; w:Option<bool>", name="node")
# --- enums of unit variants, newtypes
E("UnitE", "A;B;C|name=see", groups="io en")
E("UnitD", "A;*B;Weird|name=x.y-z", name="unit-d", groups="en")
E("NewE", "U;S:String;N:u32;B:bool;L:Leaf;A:LeafA;OS:Option<String>;OL:Option<Leaf>;VS:Vec<String>;VN:Vec<u16>;VL:Vec<Leaf>|name=vl", groups="io en")
E("NewT", "*T:LeafT;AT:LeafAT;E:Empty;I:UnitE;X:Two|name=two;V:Vec<LeafAT>;VE:Vec<UnitE>;D:f64", groups="en")
E("NewA", "S:String|name=a;T:String|name=b;*None", groups="en")
# --- primitives
P("PrimS", "String", groups="prim str")
P("PrimI", "i32", groups="prim")
P("PrimU", "u8", groups="prim")
P("PrimB", "bool", groups="prim")
P("PrimF", "f64", groups="prim")
P("PrimL", "u64", groups="prim")
P("Hex8", (8, 0xff), "hex", groups="prim")
P("Hex16", (16, 0xffff), "hex", groups="prim")
P("Hex32", (32, 0xffffffff), "hex", groups="prim")
P("Hex64", (64, 0xffffffffffffffff), "hex", groups="prim")
P("HexM", (16, 0xf0f1), "hex", groups="prim")
P("DefI", "i16", "default", groups="prim")
P("DefS", "String", "default", groups="prim str")
P("Cust", "String", "custom", groups="prim str probe")
# --- every primitive in every position
for p in ["PrimS", "PrimI", "PrimU", "PrimB", "PrimF", "PrimL", "Hex8", "Hex16", "Hex32", "Hex64", "HexM", "DefI", "DefS", "Cust"]:
    S("Pos" + p, f"e:{p}; o:Option<{p}>; v:Vec<{p}>; r:Option<{p}>|name=re-named; a:{p}|attr; b:Option<{p}>|attr|name=b.b", groups="pos")
    S("PosV" + p, f"w:Vec<{p}>|attr; x:Option<u8>", ser=False, rt=False, groups="posv")
    E("PosE" + p, f"*N;V:{p};O:Option<{p}>;W:Vec<{p}>", groups="pose")
# --- every scalar in every position
sc = lambda f: ";".join(f(s) for s in SCALARS)
nm = lambda s: "r_" + s.lower()
S("SScal", sc(lambda s: f"{nm(s)}:{s}"), groups="sc")
S("SScalA", sc(lambda s: f"{nm(s)}:{s}|attr"), groups="sc")
S("OScal", sc(lambda s: f"{nm(s)}:Option<{s}>"), groups="sc")
S("OScalA", sc(lambda s: f"{nm(s)}:Option<{s}>|attr"), groups="sc")
S("VScal", sc(lambda s: f"{nm(s)}:Vec<{s}>"), groups="sc")
S("VScalA", sc(lambda s: f"{nm(s)}:Vec<{s}>|attr"), ser=False, rt=False, groups="sc")
E("EScal", sc(lambda s: f"V{s.capitalize()}:{s}"), groups="sc en")
E("EOScal", sc(lambda s: f"V{s.capitalize()}:Option<{s}>"), groups="sc en")
E("EVScal", sc(lambda s: f"V{s.capitalize()}:Vec<{s}>"), groups="sc en")
# --- every derived type in every position
S("STypes", "leaf:Leaf; at:LeafAT; unit:UnitE; new:NewE; p:PrimI; h:Hex16")
S("OTypes", "leaf:Option<Leaf>; at:Option<LeafAT>; unit:Option<UnitE>; new:Option<NewE>; p:Option<PrimS>; h:Option<Hex8>", groups="io")
S("VTypes", "leaf:Vec<Leaf>; at:Vec<LeafAT>; unit:Vec<UnitE>; new:Vec<NewE>; p:Vec<PrimI>; h:Vec<Hex8>", groups="list")
S("ATypes", "p:PrimI|attr; s:PrimS|attr; h:Hex16|attr; u:UnitE|attr; e:String")
S("OATypes", "p:Option<PrimI>|attr; s:Option<PrimS>|attr; h:Option<Hex8>|attr; u:Option<UnitE>|attr; d:Option<DefI>|attr; e:Option<String>")
S("VATypes", "p:Vec<PrimI>|attr; h:Vec<Hex8>|attr; u:Vec<UnitE>|attr", ser=False, rt=False)
# --- mixtures
S("Mixed", "id:u32|attr; tag:Option<String>|attr; name:String; n:Option<i32>; list:Vec<String>; sub:Leaf; osub:Option<LeafA>; subs:Vec<LeafT>; kind:UnitE; txt:String|text", groups="io mix")
S("MixedT", "lang:Option<String>|attr; t:String|text; b:Option<bool>; e:Option<NewE>", groups="io mix")
S("TwoV", "a:Vec<String>; b:Vec<String>", groups="list io")
S("TwoVS", "a:Vec<Leaf>; m:String; b:Vec<LeafT>|name=bee", groups="list")
S("VEnum", "item:Vec<NewE>; other:Vec<UnitE>", groups="list")
S("ThreeV", "x:Vec<u8>; y:Vec<bool>; z:Vec<LeafA>", groups="list")
# --- nesting and names
S("Deep3", "v:String; w:Option<u8>", name="c")
S("Deep2", "c:Deep3; a:Option<String>; d:Vec<Deep3>", name="b")
S("Deep1", "b:Deep2; a:String; c:Option<Deep3>", name="a", groups="io")
S("Rec", "v:u8; r:Vec<Rec>", depth=3, groups="io rec")
S("RecA", "v:Option<String>|attr; item:Vec<RecA>", name="item", depth=3, groups="rec io")
S("RecF", "v:u8; f:RecFIn|flat", depth=3, groups="rec io")
S("RecFIn", "w:Option<bool>; r:Vec<RecF>; t:Option<String>|attr", depth=3)
S("RecM", "a:Option<String>; m:Vec<RecN>", depth=3, groups="rec io")
S("RecN", "x:String|text; m:Vec<RecM>|name=a", depth=3, groups="rec io")
S("RecP", "k:Vec<RecK>; t:Option<String>|attr", depth=3, groups="rec io")
E("RecK", "P:RecP;*Z;V:Vec<RecP>", depth=3, groups="rec io")
S("RecNs", "v:u8|ns=n; r:Vec<RecNs>|ns=n", ns="n", nss=[("n","urn:n")], depth=3, groups="rec ns")
E("RecE", "Leaf:u8;*Nil;Node:Vec<RecE>", depth=3, groups="rec io")
S("SameRoot", "a:String; SameRoot:Option<String>|name=SameRoot", groups="name")
S("RootField", "root:String; x:Option<u8>", name="root", groups="name io")
S("RootFieldS", "root:Leaf; x:Option<u8>", name="root", groups="name")
S("RootFieldV", "root:Vec<u8>; x:Option<u8>", name="root", groups="name")
S("InnerN", "n:Option<String>; inner:Option<String>", name="inner", groups="name")
S("OuterN", "inner:InnerN; n:Option<String>; other:Option<InnerN>", name="outer", groups="name")
S("SwapIn", "b:Option<String>; a:Option<u8>", groups="name")
S("SwapOut", "a:SwapIn; b:SwapIn", groups="name")
S("Case", "item:Option<String>; Item:Option<Leaf>; ITEM:Option<u8>|attr; iTEM:Vec<LeafA>", groups="name")
S("Renamed", "a:String|name=x-y; b:Option<u8>|name=p.q; c:Option<String>|attr|name=a.b; d:Option<String>|attr|name=z-1", name="re-named.x", groups="name")
S("Swapped", "a:Option<String>|name=b; b:Option<u8>|name=a", groups="name")
S("AttrElem", "x:String|attr|name=v; y:Option<String>|name=v", groups="name")
S("AttrElemS", "x:Option<u8>|attr|name=leaf; y:Option<LeafA>|name=leaf; z:Option<u32>|attr|name=x", groups="name")
S("Under", "_a:Option<String>; b_c:Option<u8>; d__:Option<bool>", groups="name")
S("Uni", "a:Option<String>|name=\u00e9l\u00e9ment; b:Option<String>|attr|name=\u00e0", groups="name")
# --- text and cdata
S("TextOnlyO", "t:Option<String>|text; a:Option<u8>|attr", groups="str")
S("TextKids", "t:String|text; a:Option<u8>; b:Vec<LeafT>", groups="mix")
S("CData", "c:String|cdata; d:Option<String>", groups="str io")
S("CData2", "c:String|cdata; d:String|cdata|name=e; a:Option<u8>|attr", groups="str")
S("Strs", "a:String|attr; e:String; o:Option<String>; v:Vec<String>", groups="str io")
S("StrSub", "l:LeafT; e:NewE; p:PrimS; d:DefS", groups="str")
# --- defaults
S("DefF", "a:String|def=dflt; n:u32|def=7; b:bool|def=true; x:String", groups="def io skip")
S("DefA", "a:String|attr|def=dflt; n:i32|attr|def=-3; e:Option<String>", groups="def skip")
S("DefT", "t:String|text|def=none", groups="def skip")
S("DefS_", "l:Leaf|def!Val::Struct(vec![Val::s(\"q\")]); u:UnitE|def!Val::Var(1, None); e:NewE|def!Val::var(2, Val::s(\"9\")); p:PrimI|def=4", groups="def skip")
S("DefOV", "o:Option<u32>|def!Val::some(Val::s(\"3\")); v:Vec<String>|def!Val::List(vec![Val::s(\"i\")]); z:u8", groups="def skip", rt=False, de=False)
S("DefAll", "a:u8|def=1; b:u16|def=2; c:u32|def=3; d:u64|def=4; e:i8|def=-1; f:i16|def=-2; g:i32|def=-3; h:i64|def=-4; i:f32|def=0.5; j:f64|def=1.5; k:bool|def=false; l:String|def=", groups="def skip")
# --- skipping
S("Skip", "a:String|skip|def=gone; b:Option<String>|skip; c:Vec<u8>|skip; d:u32", groups="skip", rt=False)
S("SkipA", "a:String|attr|skip|def=gone; b:Option<u8>|attr|skip; d:u32|attr; e:Option<String>|attr", groups="skip", rt=False)
S("SkipIf", "a:u32|skipif=zero|def=0; b:String|skipif=empty; c:Option<String>|skipif=first_o; d:Vec<String>|skipif=one; e:Leaf|skipif=first; f:u8", groups="skip", rt=False)
S("SkipIfA", "a:u32|attr|skipif=zero; b:String|attr|skipif=empty; c:Option<u8>|attr|skipif=zero_o; d:PrimI|attr|skipif=zero; f:u8|attr", groups="skip", rt=False)
S("SkipIfT", "t:String|text|skipif=a; x:Option<String>|skipif=never; y:Option<String>|skipif=always; z:String|cdata|skipif=empty", groups="skip", rt=False)
S("SkipMid", "a:Leaf|skipif=first; b:Leaf; c:NewE|skipif=first; d:Vec<Leaf>|skipif=empty; e:Option<LeafA>|skip; f:LeafA", groups="skip", rt=False)
S("SkipDef", "a:u32|def=5|skipif=zero; b:u32|def=5|skip; c:u32|attr|def=5|skipif=zero; d:Option<u8>", groups="skip", rt=False)
S("SkipFlIn", "a:u32|attr|skipif=zero; b:String|skipif=empty|def=; c:Option<u8>|skip; d:Vec<u8>|skipif=one; e:String|attr|def=dflt", groups="skip", rt=False)
S("SkipFl", "x:Option<u8>|attr; f:SkipFlIn|flat; y:u32|skipif=zero|def=0", groups="skip", rt=False)
S("SkipFlO", "x:Option<u8>; f:Option<SkipFlIn>|flat; y:String|text|skipif=a", groups="skip", rt=False)
S("SkipFlX", "x:Option<u8>; f:FlIn|flat|skipif=first; g:Option<LeafA>|flat|skipif=first|name=g; y:u32|attr|skipif=zero", groups="skip", rt=False, de=False)
S("SkipFlS", "f:FlIn|flat|skip; g:Option<FlAIn>|flat|skip; y:Option<u8>", groups="skip", rt=False, de=False)
E("SkipEn", "*U;A:SkipIfA;B:SkipIfT;V:Vec<SkipIfA>;O:Option<SkipFl>", groups="skip", rt=False)
S("SkipOut", "a:SkipIfA; b:Vec<SkipIfA>; c:Option<SkipIfT>; d:SkipEn|skipif=first; e:Vec<SkipFl>", groups="skip", rt=False)
S("SkipTy", "a:UnitE|skipif=first|attr; b:PrimI|skipif=zero; c:Option<Hex8>|skip; d:NewE|skip; e:Vec<NewE>|skip; f:Option<Leaf>|skipif=first; g:u8", groups="skip", rt=False, de=False)
S("SkipVA", "a:u8|skip|def=1; v:Vec<Leaf>|skip; b:Option<String>|attr|skip; w:Vec<String>|skipif=never; c:String|text", groups="skip", rt=False)
# --- flatten: each with a twin that has the members in place
S("FlIn", "a:String; b:Option<u32>", groups="")
S("Fl", "x:u8; f:FlIn|flat; y:Option<String>", groups="fl io")
S("FlTw", "x:u8; a:String; b:Option<u32>; y:Option<String>", name="Fl", groups="")
S("FlAIn", "i:Option<u8>|attr; a:Option<String>; l:Option<Leaf>", groups="")
S("FlA", "k:u8|attr; f:FlAIn|flat; y:Vec<String>", groups="fl")
S("FlATw", "k:u8|attr; i:Option<u8>|attr; a:Option<String>; l:Option<Leaf>; y:Vec<String>", name="FlA", groups="")
S("FlVIn", "v:Vec<u8>; w:Vec<Leaf>", groups="")
S("FlV", "f:FlVIn|flat; x:Option<u8>", groups="fl")
S("FlVTw", "v:Vec<u8>; w:Vec<Leaf>; x:Option<u8>", name="FlV", groups="")
S("FlTIn", "t:String|text; i:Option<u8>|attr", groups="")
S("FlT", "x:Option<u8>; f:FlTIn|flat", groups="fl")
S("FlTTw", "x:Option<u8>; t:String|text; i:Option<u8>|attr", name="FlT", groups="")
S("FlO", "x:u8; f:Option<FlIn>|flat; y:Option<String>", groups="fl io")
S("FlOA", "x:Option<u8>; f:Option<LeafA>|flat", groups="fl")
S("FlOATw", "x:Option<u8>; xx:Option<u32>|attr|name=x", name="FlOA", groups="")
S("Fl2In", "p:String; f:FlIn|flat", groups="")
S("Fl2", "f:Fl2In|flat; z:Option<u8>", groups="fl io")
S("Fl2Tw", "p:String; a:String; b:Option<u32>; z:Option<u8>", name="Fl2", groups="")
S("FlTwoB", "c:Option<String>; d:Option<u8>", groups="")
S("FlTwo", "f:FlIn|flat; x:Option<u8>; g:FlTwoB|flat", groups="fl")
S("FlTwoTw", "a:String; b:Option<u32>; x:Option<u8>; c:Option<String>; d:Option<u8>", name="FlTwo", groups="")
E("FlEn", "*Non;Ea:String;Eb:Leaf;Ec:Vec<u8>", flatten=True, groups="", rt=False)
S("FlE", "x:Option<u8>; f:FlEn|flat; y:Option<String>", groups="fl flen", rt=False)
E("FlEnL", "Ea:LeafA;Eb:LeafT;*Ed:Leaf", flatten=True, groups="", rt=True)
S("FlEL", "x:Option<u8>; f:FlEnL|flat; y:Option<String>", groups="fl flen")
S("FlOE", "x:Option<u8>; f:Option<FlEnL>|flat", groups="flen", rt=False)
S("FlMix", "k:Option<u8>|attr; f:FlAIn|flat; s:Leaf; v:Vec<Leaf>; e:Option<UnitE>", groups="fl")
S("FlMixTw", "k:Option<u8>|attr; i:Option<u8>|attr; a:Option<String>; l:Option<Leaf>; s:Leaf; v:Vec<Leaf>; e:Option<UnitE>", name="FlMix", groups="")
S("FlVec", "x:u8; f:Vec<FlIn>|flat", de=False, rt=False, groups="flser")
S("FlSub", "s:Fl; t:Option<Fl>; u:Vec<FlO>", groups="fl io")
S("FlDefIn", "a:String|def=da; b:Option<u8>", groups="")
S("FlDef", "f:FlDefIn|flat; x:Option<u8>", groups="fl")
S("FlDefTw", "a:String|def=da; b:Option<u8>; x:Option<u8>", name="FlDef", groups="")
# root flattened
S("RootFl", "a:Leaf", flatten=True, groups="rootfl", rt=True)
E("RootFlE", "*A:Leaf;B:LeafA;C:Two|name=cc", flatten=True, groups="rootfl io", rt=True)
E("VarFl", "*A:LeafA|flat;B:Leaf|flat|name=Leaf;N:u8", groups="", rt=False, de=False)
E("VarFlO", "V:VarFl;W:Vec<VarFl>;O:Option<VarFl>", groups="", rt=False, de=False)
S("VarFlS", "v:VarFl; w:Vec<VarFl>; x:Option<VarFl>; y:VarFlO; f:VarFl|flat", groups="", rt=False, de=False)
# --- tagged enums
E("Tagged", "*A;B;C|name=see", tag="kind", groups="tag")
E("TaggedN", "*A;B|name=b-b", tag="type", name="tg", groups="tag")
S("TagIn", "t:Tagged; u:Vec<TaggedN>; o:Option<Tagged>; x:Option<u8>", groups="tag")
E("TagNew", "*A;S:String;L:Leaf|name=l.l;V:Vec<u8>;O:Option<LeafAT>;E:UnitE", tag="kind", groups="tag")
S("TagNewIn", "t:TagNew; S:Option<String>; u:Vec<TagNew>; l:Option<Leaf>", groups="tag")
# --- enums: confusable names, contexts
E("Cross", "A:String|name=B;B:u8|name=A;*N|name=C;C|name=N", groups="en")
E("Conf", "a:String;A:u8;ab:u8|name=a-b;*N;n;Conf:Option<u8>", groups="en")
E("EnNest", "*Z;S:UnitE;A:NewE;V:Vec<NewE>;K:Tagged;O:Option<Cross>", groups="en")
S("EnIn", "a:Option<u8>; e:NewE; b:Option<u8>", groups="enin")
S("EnInT", "a:Option<u8>; e:Option<NewT>; b:Vec<LeafT>", groups="enin")
S("EnInV", "e:Vec<NewE>; U:Option<u8>; f:Option<UnitE>", groups="enin")
S("EnSame", "S:Option<String>; N:Option<u32>; e:NewE; L:Vec<Leaf>", groups="enin")
S("EnInC", "x:Cross; A:Option<u8>; y:Option<Conf>; t:String|text", groups="enin")
S("EnInN", "Z:Option<u8>; e:EnNest; S:Option<UnitE>", groups="enin")
# --- namespaces
N1 = ("n", "urn:n")
N2 = ("m", "urn:m")
N3 = ("k", "urn:k")
S("NsA", "a:String|ns=n; b:Option<u8>", ns="n", nss=[N1], name="root", groups="ns io")
S("NsB", "a:Option<String>|ns=n; b:Option<String>|ns=m|name=a; c:Option<String>|name=a", ns="n", nss=[N1, N2], name="root", groups="ns")
S("NsIn", "v:Option<String>|ns=m; w:Option<u8>|ns=n", nss=[N1, N2], name="in", groups="")
S("NsOut", "i:Option<NsIn>|ns=n; j:Vec<NsIn>|ns=m; v:Option<String>|ns=n", ns="n", nss=[N1, N2], name="out", groups="ns io")
S("NsAttr", "x:Option<String>|attr|ns=n; y:Option<u8>|attr; z:Option<String>|ns=n", ns="n", nss=[N1], name="root", groups="ns")
S("NsLeaf", "t:Option<String>|ns=n", ns="n", nss=[N1], name="leaf", groups="")
S("NsDflt", "a:Option<String>|ns=n; b:Option<u8>|ns=m; l:Option<NsLeaf>|ns=n", ns="n", dns="n", nss=[N1, N2], name="root", groups="ns")
S("NsNone", "a:Option<String>|ns=n; b:Option<u8>", nss=[N1], name="root", groups="ns")
S("NsTwoV", "a:Vec<String>|ns=n; b:Vec<String>|ns=m|name=a; c:Vec<NsLeaf>|ns=m|name=a2", ns="m", nss=[N1, N2], name="root", groups="ns list")
S("NsShadIn", "v:Option<String>|ns=n", nss=[("n", "urn:other")], name="in", groups="")
S("NsShad", "i:Option<NsShadIn>|ns=n; v:Option<String>|ns=n; w:Option<NsIn>|ns=n", ns="n", nss=[N1], name="root", groups="ns", rt=False)
E("NsE", "A;S:String|ns=n;L:Leaf|ns=n;T:NsLeaf|ns=m;V:Vec<NsLeaf>|ns=n", ns="n", nss=[N1, N2], name="ens", groups="ns en")
E("NsU", "A|ns=n;*B;C|ns=m;D:u8|ns=m;E|ns=m|name=e.e", ns="n", nss=[N1, N2], name="nsu", groups="ns en")
E("NsUD", "*A|ns=n;B;C|ns=m", ns="n", dns="n", nss=[N1, N2], name="nsu", groups="ns en")
S("NsEnum", "e:Option<NsE>|ns=n; x:Option<u8>|ns=m; u:Option<UnitE>|ns=m", ns="n", nss=[N1, N2], name="root", groups="ns")
S("NsPrim", "p:Option<PrimI>|ns=n; q:Vec<Hex8>|ns=m; c:String|cdata|ns=n", ns="n", nss=[N1, N2], name="root", groups="ns")
S("NsFlIn", "a:Option<String>|ns=n; b:Option<u8>|ns=n", ns="n", nss=[N1], name="fin", groups="")
S("NsFl", "x:Option<u8>|ns=n; f:NsFlIn|flat", ns="n", nss=[N1], name="root", groups="ns fl")
S("NsFlTw", "x:Option<u8>|ns=n; a:Option<String>|ns=n; b:Option<u8>|ns=n", ns="n", nss=[N1], name="root", groups="")
S("NsFlP", "x:Option<u8>|ns=n; f:FlIn|flat", ns="n", nss=[N1], name="root", groups="ns fl")
S("NsFlPTw", "x:Option<u8>|ns=n; a:String; b:Option<u32>", ns="n", nss=[N1], name="root", groups="")
S("NsFlPO", "x:Option<u8>|ns=n; f:Option<FlIn>|flat; y:Option<String>", ns="n", nss=[N1], name="root", groups="ns fl")
S("NsFlMIn", "a:Option<String>|ns=m; v:Vec<NsLeaf>|ns=m; w:Option<u8>", ns="m", nss=[N2], name="fin", groups="")
S("NsFlM", "x:Option<u8>|ns=n; f:NsFlMIn|flat; a:Option<String>|ns=n", ns="n", nss=[N1, N2], name="root", groups="ns fl")
S("NsFlMTw", "x:Option<u8>|ns=n; aa:Option<String>|ns=m|name=a; v:Vec<NsLeaf>|ns=m; w:Option<u8>; a:Option<String>|ns=n", ns="n", nss=[N1, N2], name="root", groups="")
# the flattened struct declares what its parent does not
S("NsFlQ", "x:Option<u8>|ns=n; f:NsFlMIn|flat; a:Option<String>|ns=n", ns="n", nss=[N1], name="root", groups="ns fl")
S("NsFlQTw", "x:Option<u8>|ns=n; aa:Option<String>|ns=m|name=a; v:Vec<NsLeaf>|ns=m; w:Option<u8>; a:Option<String>|ns=n", ns="n", nss=[N1, N2], name="root", groups="")
S("NsFlRIn", "c:String|ns=k; i:Option<u8>|attr; g:NsFlMIn|flat", nss=[N3], name="rin", groups="")
S("NsFlR", "x:Option<u8>|ns=n; f:NsFlRIn|flat; y:Vec<NsLeaf>|ns=n", ns="n", nss=[N1], name="root", groups="ns fl")
S("NsFlRTw", "x:Option<u8>|ns=n; c:String|ns=k; i:Option<u8>|attr; a:Option<String>|ns=m; v:Vec<NsLeaf>|ns=m; w:Option<u8>; y:Vec<NsLeaf>|ns=n", ns="n", nss=[N1, N2, N3], name="root", groups="")
S("NsFlRO", "x:Option<u8>|ns=n; f:Option<NsFlRIn>|flat; y:Option<NsFlQ>|ns=n", ns="n", nss=[N1], name="root", groups="ns fl")
E("NsFlRE", "*A|ns=n;B:NsFlQ|ns=n;C:NsFlR|ns=n|name=c-c;D:Vec<NsFlRO>|ns=n", ns="n", nss=[N1], name="fre", groups="ns en")
S("NsDeep2", "c:Option<String>|ns=k", nss=[N3], name="d2", groups="")
S("NsDeep1", "b:Option<NsDeep2>|ns=m; c:Option<String>|ns=m", nss=[N2], name="d1", groups="")
S("NsDeep", "a:Option<NsDeep1>|ns=n; b:Option<String>|ns=n", ns="n", nss=[N1], name="d0", groups="ns")
S("NsText", "t:String|text; x:Option<String>|ns=n", ns="n", nss=[N1], name="root", groups="ns")
S("NsAmp", "a:Option<String>|ns=n", ns="n", nss=[("n", "urn:a&b")], name="root", groups="probe", rt=False)
S("NsUri", "a:Option<String>|ns=n; b:Option<String>|ns=m|name=a; c:Vec<u8>|ns=k|name=a; d:Option<NsUriIn>|ns=m", ns="n", nss=[("n", "http://e.org/n/"), ("m", "http://e.org/n"), ("k", "http://e.org/N/")], name="root", groups="ns")
S("NsUriIn", "a:Option<String>|ns=q; b:Option<String>", ns="q", nss=[("q", "http://e.org/n/#")], name="d", groups="ns")
S("NsPre", "a:Option<String>|ns=n; b:Option<String>|ns=nn|name=a; c:Option<u8>|ns=n_n|name=a; d:Vec<u8>|ns=k|name=a", ns="nn", nss=[("n", "nn"), ("nn", "n"), ("n_n", "n-n"), ("k", "N")], name="root", groups="ns")
# types with a namespace as attributes, of an element of another
E("NsT", "*A;B;C|name=see", ns="n", nss=[N1], name="nst", groups="ns en")
S("NsAttrT", "x:NsT|attr; y:Option<NsUD>|attr|name=yy; z:Option<NsT>", groups="ns")
S("NsAttrU", "x:Option<NsT>|attr|name=t; y:NsUD|attr; z:Vec<NsAttrT>|ns=m", ns="m", nss=[N2], name="root", groups="ns")
S("NsAttrV", "w:Vec<NsT>|attr; x:Option<u8>", ser=False, rt=False, groups="ns")
# --- generic, macro, paths
S("Gen<Leaf>", "v:Leaf; o:Option<Leaf>; l:Vec<Leaf>", name="gen", generic=("Gen", "v:T; o:Option<T>; l:Vec<T>"), groups="gen")
S("Gen<UnitE>", "v:UnitE; o:Option<UnitE>; l:Vec<UnitE>", name="gen", generic=("Gen", None), groups="gen")
S("Gen<PrimI>", "v:PrimI; o:Option<PrimI>; l:Vec<PrimI>", name="gen", generic=("Gen", None), groups="gen")
S("GenUse", "g:Gen<Leaf>; h:Option<Gen<UnitE>>", groups="gen")
S("Mac", "a:String; o:Option<u32>; v:Vec<Leaf>; l:Leaf", macro=True, groups="gen")
S("Paths", "a:std::string::String; o:std::option::Option<u8>; v:std::vec::Vec<std::string::String>; l:crate::Leaf; m:Option<crate::LeafA>", groups="gen")
S("Outer", "r_type:String|name=type; r_mod:Option<u8>|name=mod; r_self:Option<Leaf>|name=self", groups="name")
# --- more namespaces and attributes
E("NsED", "*A|ns=n;B:u8|ns=n|name=bee;C:NsLeaf|ns=m|name=c.c;D:String|ns=n;F:Vec<u16>|ns=n|name=ef", ns="n", dns="n", nss=[N1, N2], name="ed", groups="ns en")
S("NsDR", "a:Option<String>|ns=n|name=x-y; b:Vec<u8>|ns=m|name=b.b; c:Option<NsED>|ns=n|name=see; d:Option<NsED>|ns=m|name=dee; e:Option<u8>|attr|ns=m", ns="n", dns="n", nss=[N1, N2], name="dr", groups="ns")
S("NsUn", "a:Option<String>; b:Option<u8>|ns=n|name=a; c:Option<Leaf>|ns=m; d:Vec<NsLeaf>|ns=n", nss=[N1, N2, N3], name="un", groups="ns")
S("AttrV", "ids:Vec<u8>|attr; n:Option<String>|attr; aa:Vec<String>|attr; zz:u32|attr|def=4; e:Option<u8>; f:Vec<Leaf>", ser=False, rt=False)
S("AttrVS", "k:Option<u8>|attr; sub:Vec<AttrV>; l:Vec<PrimI>|attr; u:Option<AttrV>; t:String|text", ser=False, rt=False)
S("FlAIn2", "j:Option<u8>|attr; m:String|attr; c:Option<String>", groups="")
S("FlTwoA", "k:Option<u8>|attr; f:FlAIn|flat; g:FlAIn2|flat; y:Option<u8>", groups="fl")
S("FlTwoATw", "k:Option<u8>|attr; i:Option<u8>|attr; a:Option<String>; l:Option<Leaf>; j:Option<u8>|attr; m:String|attr; c:Option<String>; y:Option<u8>", name="FlTwoA", groups="")
# --- raw identifiers, members named like what generated code declares, hand-written implementations
S("Raw", "r#type:String; r#mod:Option<u8>; r#in:Vec<String>; r#for:Option<Leaf>; r#ref:Option<String>|attr; r#use:u32|attr|def=3; r#match:Vec<Leaf>|name=m-m", groups="name io")
E("RawE", "*A;r#type:String;r#fn;r#loop:Leaf;r#box:Vec<u8>", groups="name en")
S("RawT", "r#as:Option<RawE>; r#where:String|text; r#dyn:FlIn|flat; r#impl:Option<u8>|skipif=never", name="raw-t", groups="name")
S("Vars", "reader:String; writer:Option<u8>; depth:Vec<u8>; event:Leaf; name:Option<Leaf>; attributes:Option<UnitE>; value:u8|attr; namespace:Option<String>|attr; buf:Vec<Leaf>", groups="name io")
S("Vars2", "visitor:String; result:bool; content:Option<u8>; item:Vec<LeafA>; tag:Option<String>|attr; skip:u8|attr|def=1; s:String|text; struct_start_event:FlIn|flat; yaserde_inner:Option<PrimI>", groups="name")
S("Vars3", "start_depth:u8; named_element:Option<String>; struct_namespace:Option<String>; field_depth:Vec<bool>; unused_xml_elements:FlAIn|flat; yaserde_value:String|skipif=empty|def=; text_content:Option<Leaf>; yaserde_item:Option<u8>; label:Vec<String>", groups="name")
S("NoFlags", "a:Option<String>; attribute:Option<u8>; text:Option<String>; cdata:Option<bool>; flatten:Option<Leaf>; default:Option<String>; rename:Option<u8>|attr; prefix:Option<String>|attr", groups="name")
S("UseCust", "c:Cust; d:Option<Cust>; e:Vec<Cust>; f:String", groups="list io")
S("Gen2<Leaf, PrimI>", "a:Leaf; b:Vec<PrimI>; c:Option<Leaf>; n:u8|attr", name="gen2", generic=("Gen2", "a:T; b:Vec<U>; c:Option<T>; n:u8|attr"), groups="gen")
S("Turbo", "a:Vec::<String>; b:Option::<u8>; c:Vec::<Leaf>; d:::std::option::Option::<LeafA>; e:core::option::Option<bool>", groups="gen")
S("Many", ";".join(f"m{i:02}:" + ["u8", "Option<String>", "Vec<u8>", "Option<Leaf>|name=m{:02}x".format(i), "Option<u8>|attr", "bool|def=true"][i % 6] for i in range(30)), groups="name")
# --- built-in types that are only written, as members and as parameters
for b, c in [("char", "Char"), ("usize", "U64"), ("isize", "I64")]:
    B(b, c)
    S("Bu" + b, f"e:{b}; o:Option<{b}>; v:Vec<{b}>; r:Option<{b}>|name=re-named; a:{b}|attr; b:Option<{b}>|attr|name=b.b", de=False, rt=False)
    E("BuE" + b, f"*N;V:{b};O:Option<{b}>;W:Vec<{b}>;M" + "{x:B, o:Option<B>/name=oo, v:Vec<B>}".replace("B", b), de=False, rt=False)
S("BuFlIn", "c:char; n:Vec<usize>; i:Option<isize>|attr", de=False, rt=False)
S("BuFl", "a:u8; f:BuFlIn|flat; g:Option<BuFlIn>; e:BuEchar; h:Vec<BuEusize>; t:String|text", de=False, rt=False)
S("BuNs", "c:char|ns=n; n:Vec<usize>|ns=m; l:Option<Leaf>|ns=n; i:Option<isize>; j:isize|skipif=zero; k:char|ns=n|name=x-y", ns="n", nss=[N1, N2], name="root", de=False, rt=False)
# names that differ in case or punctuation only
S("SimCase", "a:Option<u8>; A:Option<u8>; b:Option<u8>|attr|name=a; c:Option<u8>|attr|name=A", groups="name io")
S("SimLists", "li:Vec<u8>; LI:Vec<u8>; l:Vec<Leaf>|name=lI; m:Vec<Leaf>|name=Li", groups="name list")
S("SimPunct", "x:Option<u8>|name=a.b; y:Option<u8>|name=a-b; a_b:Option<u8>; aB:Option<u8>; ab:Option<u8>", groups="name")
S("SimNs", "a_b:Option<u8>|ns=n; aB:Option<u8>|ns=n; n_a:Option<u8>|name=a-b; a:Option<u8>|ns=n; A:Option<u8>|ns=n", nss=[N1], ns="n", groups="ns")
E("SimE", "a;*A;a_b:u8;aB:u8;x:Leaf|name=a.b;y:Leaf|name=a-b", groups="en")
S("SimUse", "e:SimE; E:Option<SimE>; f:Vec<SimE>|name=_; s:SimPunct|name=S; S:SimCase|name=s", groups="name")
S("GenI<Leaf, 3>", "a:Leaf; b:Vec<Leaf>; c:Option<Leaf>; n:u8|attr; t:String|text", name="geni", generic=("GenI", "a:T; b:Vec<T>; c:Option<T>; n:u8|attr; t:String|text", "inline"), groups="gen")
S("GenI<UnitE, 7>", "a:UnitE; b:Vec<UnitE>; c:Option<UnitE>; n:u8|attr; t:String|text", name="geni", generic=("GenI", None), groups="gen")
S("GenIUse", "p:GenI<Leaf, 3>; q:Option<GenI<UnitE, 7>>; r:Vec<GenI<Leaf, 3>>; f:FlIn|flat", groups="gen")
S("GenB<u32>", "v:u32; o:Option<u32>; l:Vec<u32>; w:Option<Leaf>", name="genb", generic=("GenB", "v:T; o:Option<T>; l:Vec<T>; w:Option<Leaf>"), de=False, rt=False)
S("GenB<bool>", "v:bool; o:Option<bool>; l:Vec<bool>; w:Option<Leaf>", name="genb", generic=("GenB", None), de=False, rt=False)
S("GenB<f64>", "v:f64; o:Option<f64>; l:Vec<f64>; w:Option<Leaf>", name="genb", generic=("GenB", None), de=False, rt=False)
S("GenB<char>", "v:char; o:Option<char>; l:Vec<char>; w:Option<Leaf>", name="genb", generic=("GenB", None), de=False, rt=False)
S("GenB<LeafAT>", "v:LeafAT; o:Option<LeafAT>; l:Vec<LeafAT>; w:Option<Leaf>", name="genb", generic=("GenB", None), de=False, rt=False)
S("GenBUse", "a:GenB<u32>; b:Vec<GenB<char>>; c:Option<GenB<LeafAT>>", de=False, rt=False)
# --- variants with named members (written only)
E("NamedO", "*U;A{a:Option<u8>, b:Option<String>/name=b-b, v:Vec<u16>, w:Vec<bool>};B{l:Option<LeafA>, v:Vec<i64>, e:Option<UnitE>, c:Option<f64>, p:Option<PrimI>}|name=bb", de=False, rt=False)
E("NamedON", "A{a:Option<String>/ns=n, b:Option<NsLeaf>/ns=m, c:Vec<u8>/ns=m, d:Option<u8>};*B", ns="n", nss=[N1, N2], name="nvo", de=False, rt=False)
S("NamedOIn", "a:NamedO; b:Option<NamedON>; c:Vec<NamedO>; d:Option<u8>", de=False, rt=False)
E("NamedV", "*U;A{a:String, b:u8};B{l:Leaf, v:Vec<LeafA>, w:bool};C{n:i64/name=x-y, m:UnitE/name=mm}|name=cc;D{reader:String, item:f64}", de=False, rt=False)
E("NamedN", "A{a:String/ns=n, b:NsLeaf/ns=m};*B", ns="n", nss=[N1, N2], name="nv", de=False, rt=False)
E("NamedW", "*U;A{i:Vec<Deep1>, n:Vec<NewE>, f:Vec<FlA>, o:Option<Deep2>, r:Vec<PrimI>, t:Vec<Tagged>, s:Deep3};B{x:Option<EnNest>, y:Vec<LeafAT>}", de=False, rt=False)
S("NamedWIn", "a:Vec<NamedW>; b:Option<NamedW>; c:Deep3", de=False, rt=False)
S("NamedIn", "a:NamedV; b:Option<NamedV>; c:Vec<NamedV>; d:Option<u8>", de=False, rt=False)
# --- an alias of Result in scope
S("Alias", "k:String; m:Option<u8>|attr; l:Vec<Leaf>; e:Option<NewE>; d:u8|def=2; f:FlIn|flat", mod="alias", groups="name")
E("AliasE", "*A;B:String;C:Vec<Leaf>;D:Option<u8>;E:Leaf", mod="alias", groups="en")

# --- every kind of member before and after every other kind, in structs of a few members
S("PrF", "pi:Option<u8>|attr; pc:String; pl:Option<Leaf>", groups="")
S("PrG", "qi:u32|attr; qc:Vec<String>; qs:Option<LeafA>", groups="")
S("PrO", "oa:String; ob:Option<u32>|attr; oc:Option<Two>", groups="")
E("PrE", "Ea:LeafA;*Ed:Leaf;Ex:LeafAT", flatten=True, groups="", rt=True)
PAIR_KINDS = {
    "s": "{}:String", "n": "{}:i64", "b": "{}:bool", "os": "{}:Option<String>", "on": "{}:Option<i32>", "vs": "{}:Vec<String>", "vn": "{}:Vec<u8>",
    "st": "{}:Leaf", "ost": "{}:Option<LeafA>", "vst": "{}:Vec<Two>", "dp": "{}:Deep2", "rn": "{}:Option<ANode>|name=r-{}",
    "en": "{}:NewE", "oen": "{}:Option<UnitE>", "ven": "{}:Vec<UnitE>", "tg": "{}:Option<Tagged>",
    "pr": "{}:PrimI", "opr": "{}:Option<Hex8>", "vpr": "{}:Vec<PrimS>",
    "as": "{}:String|attr", "an": "{}:Option<u8>|attr", "ap": "{}:PrimI|attr", "au": "{}:Option<UnitE>|attr|name=u.{}",
    "t": "{}:String|text", "ot": "{}:Option<String>|text", "cd": "{}:String|cdata",
    "fl": "{}:PrF|flat", "fg": "{}:PrG|flat", "fo": "{}:Option<PrO>|flat", "fe": "{}:PrE|flat",
    "de": "{}:u32|def=7", "da": "{}:i16|attr|def=-3", "si": "{}:String|skipif=empty|def=", "sa": "{}:u32|attr|skipif=zero|def=0", "sv": "{}:Vec<Leaf>|skipif=empty",
    "ns": "{}:Option<String>|ns=n", "nv": "{}:Vec<Leaf>|ns=m", "va": "{}:Vec<u8>|attr",
}
ONCE = [{"t", "ot"}, {"fl"}, {"fg"}, {"fo"}, {"fe"}, {"tg"}]
def pair_types(kinds, prefix, size, groups="", **kw):
    def ok(seq, k):
        return not any(k in g and any(x in g for x in seq) for g in ONCE)
    todo = {(a, b) for a in kinds for b in kinds if ok([a], b)}
    order = list(kinds)
    n = 0
    while todo:
        a, b = min(todo, key=lambda p: (order.index(p[0]) * 7 + order.index(p[1]) * 13) % 101 * 1000 + order.index(p[0]) * 40 + order.index(p[1]))
        seq = [a, b]
        while len(seq) < size:
            best, gain = None, 0
            for k in kinds:
                if not ok(seq, k):
                    continue
                for at in range(len(seq) + 1):
                    t = seq[:at] + [k] + seq[at:]
                    g = len({(t[i], t[j]) for i in range(len(t)) for j in range(i + 1, len(t))} & todo)
                    if g > gain:
                        best, gain = t, g
            if not best:
                break
            seq = best
        todo -= {(seq[i], seq[j]) for i in range(len(seq)) for j in range(i + 1, len(seq))}
        names = ["a", "b", "n", "s", "x", "v", "y", "c"]
        members = [kinds[k].format(*[names[i]] * 2) for i, k in enumerate(seq)]
        need_ns = any(k in ("ns", "nv") for k in seq)
        ro = any(k == "va" for k in seq)
        rust = f"{prefix}{n}"
        a_ = dict(kw, groups=groups)
        if need_ns: a_["nss"] = [N1, N2] + kw.get("nss", [])
        if ro: a_.update(ser=False, rt=False)
        S(rust, "; ".join(members), **a_)
        if any(k in ("fl", "fg") for k in seq) and not ro:
            inner = {"fl": "pi:Option<u8>|attr; pc:String; pl:Option<Leaf>", "fg": "qi:u32|attr; qc:Vec<String>; qs:Option<LeafA>"}
            S(rust + "Tw", "; ".join(inner.get(k, m) for k, m in zip(seq, members)), **dict(a_, name=rust))
        n += 1
pair_types(PAIR_KINDS, "Pr", 6, groups="pair")
types_done = True

# ============================================================================ generation
LISTS = 0
def attr_line(items):
    """one attribute with a list; every third time several, and other attributes between them"""
    global LISTS
    if len(items) > 1:
        LISTS += 1
        if LISTS % 3 == 0:
            between = [" ", " #[allow(unused)] ", " #[yaserde()] "][LISTS // 3 % 3]
            return between.join(f"#[yaserde({i}{',' if LISTS % 2 else ''})]" for i in items)
    return f"#[yaserde({', '.join(items)})]" if items else ""

def container_attrs(d):
    a = []
    if d["name"]: a.append(f"rename = {q(d['name'])}")
    if d["ns"]: a.append(f"prefix = {q(d['ns'])}")
    if d["dns"]: a.append(f"default_namespace = {q(d['dns'])}")
    if d["nss"]: a.append("namespaces = { " + ", ".join(f"{q(p)} = {q(u)}" for p, u in d["nss"]) + " }")
    if d["flatten"]: a.append("flatten = true")
    if d["tag"]: a.append(f"tag = {q(d['tag'])}")
    return attr_line(a)

def uniq(d):
    return re.sub(r"\W", "_", d["rust"]).lower()

def field_attrs(d, f):
    ident, ty, o = f
    a = []
    if "attr" in o: a.append("attribute = true")
    if "text" in o: a.append("text = true")
    if "cdata" in o: a.append("cdata = true")
    if "flat" in o: a.append("flatten = true")
    if "name" in o: a.append(f"rename = {q(o['name'])}")
    if "ns" in o: a.append(f"prefix = {q(o['ns'])}")
    if "skip" in o: a.append("skip_serializing = true")
    if "skipif" in o: a.append(f"skip_serializing_if = {q('p_' + raw(ident))}")
    if "def" in o: a.append(f"default = {q('df_' + uniq(d) + '_' + raw(ident).lower())}")
    return attr_line(a)

out = []
w = out.append
w("//! Generated by gen/corpus.py. Do not edit.")
w("#![allow(non_snake_case, non_camel_case_types, dead_code, unused_variables, clippy::all)]")
w("#[macro_use]\nextern crate yaserde;\nuse vcore::schema::*;\nuse vcore::val::*;\nuse yaserde::{YaDeserialize, YaSerialize};\npub use inst;\npub mod ops;\nuse ops::*;\n")

def derives(d):
    l = ["Debug", "PartialEq", "Clone"]
    if d["ser"]: l.append("YaSerialize")
    if d["de"]: l.append("YaDeserialize")
    return "#[derive(" + ", ".join(l) + ")]"

def struct_body(d, fields):
    ls = []
    for i, f in enumerate(fields):
        fa = field_attrs(d, f)
        k = (d["id"] * 3 + i) % 5
        if k == 1: ls.append("  /// A documented member")
        if k == 2: ls.append("  #[allow(unused)]\n  #[doc(hidden)]")
        if fa: ls.append("  " + fa)
        if k == 3: ls.append("  /// A documented member\n  ///\n  /// attribute = true, rename = \"x\"")
        if k == 4: ls.append("  #[cfg(not(any()))]")
        ls.append(f"  pub {f[0]}: {f[1]},")
    return "\n".join(ls)

def parse_fields(s):
    fs = []
    for f in [x.strip() for x in s.split(";") if x.strip()]:
        head, *o = [x.strip() for x in f.split("|")]
        ident, ty = [x.strip() for x in head.split(":", 1)]
        fs.append((ident, ty, opts(o)))
    return fs

def bind_struct(head, name, fields):
    w(f"{head} {{")
    w("  fn to_val(&self) -> Val {\n    Val::Struct(vec![" + ", ".join(f"self.{f[0]}.to_val()" for f in fields) + "])\n  }")
    w("  fn from_val(v: &Val) -> Self {\n    match v {\n      Val::Struct(l) if l.len() == %d => %s { %s },\n      _ => panic!(\"bad value {:?}\", v),\n    }\n  }\n}" % (
        len(fields), name, ", ".join(f"{f[0]}: Bind::from_val(&l[{i}])" for i, f in enumerate(fields))))

def bind_enum(head, name, variants, dflt):
    w(f"{head} {{")
    w("  fn to_val(&self) -> Val {\n    match self {")
    def named(ty):
        return [f[0] for f in types[byname[ty]]["fields"]]
    for i, (ident, ty, o) in enumerate(variants):
        if "named" in o:
            l = named(ty)
            w(f"      {name}::{ident} {{ " + ", ".join(f"{x}: f{j}" for j, x in enumerate(l)) + f" }} => Val::var({i}, Val::Struct(vec![" + ", ".join(f"f{j}.to_val()" for j in range(len(l))) + "])),")
            continue
        w(f"      {name}::{ident}" + (f"(x) => Val::var({i}, x.to_val())," if ty else f" => Val::Var({i}, None),"))
    w("    }\n  }\n  fn from_val(v: &Val) -> Self {\n    match v {")
    for i, (ident, ty, o) in enumerate(variants):
        if "named" in o:
            w(f"      Val::Var({i}, Some(x)) => match &**x {{\n        Val::Struct(l) => {name}::{ident} {{ " + ", ".join(f"{x}: Bind::from_val(&l[{j}])" for j, x in enumerate(named(ty))) + " },\n        x => panic!(\"bad value {:?}\", x),\n      },")
            continue
        w(f"      Val::Var({i}, " + (f"Some(x)) => {name}::{ident}(Bind::from_val(x))," if ty else f"None) => {name}::{ident},"))
    w("      _ => panic!(\"bad value {:?}\", v),\n    }\n  }\n}")

def enum_body(variants):
    ls = []
    for i, (ident, ty, o) in enumerate(variants):
        a = []
        if i % 3 == 1: ls.append("  /// A documented variant")
        if "name" in o: a.append(f"rename = {q(o['name'])}")
        if "ns" in o: a.append(f"prefix = {q(o['ns'])}")
        if "flat" in o: a.append("flatten = true")
        if a: ls.append("  " + attr_line(a))
        if "named" in o:
            t = types[byname[ty]]
            ls.append(f"  {ident} {{\n" + struct_body(t, t["fields"]).replace("pub ", "") + "\n  },")
            continue
        ls.append(f"  {ident}" + (f"({ty})" if ty else "") + ",")
    return "\n".join(ls)

BASEVAL = {"String": 'Val::s("a")', "bool": 'Val::s("true")'}
def some_val(ty):
    m, b = parse_ty(ty)
    if m == "Opt": return "Val::None"
    if m == "Vec": return "Val::List(vec![])"
    s = short(b)
    if s in SC: return BASEVAL.get(s, 'Val::s("5")')
    t = types[byname[b if b in byname else s]]
    return val_of(t)
def val_of(t):
    if t["kind"] in ("struct", "hidden"):
        return "Val::Struct(vec![" + ", ".join(some_val(f[1]) for f in t["fields"]) + "])"
    if t["kind"] == "enum":
        return dflt_val(t)
    if t["kind"] == "builtin":
        return 'Val::s("a")' if t["sc"] == "Char" else 'Val::s("5")'
    return BASEVAL.get(t["sc"], 'Val::s("5")') if t["kind"] != "hex" else 'Val::s("05")'
def dflt_val(t):
    i = t["dflt"]; v = t["variants"][i]
    return f"Val::Var({i}, None)" if not v[1] else f"Val::var({i}, {some_val(v[1])})"

seen_generic = set()
for d in types:
    n = d["rust"]
    if d["generic"]:
        g, spec = d["generic"][:2]
        if g in seen_generic: continue
        seen_generic.add(g)
        if len(d["generic"]) > 2:
            # bounds at the parameters, a default, a constant parameter
            fs = parse_fields(spec)
            w(f"{derives(d)}\n{container_attrs(d)}\npub struct {g}<T: YaSerialize + YaDeserialize = Leaf, const N: usize = 3> {{\n{struct_body(d, fs)}\n}}")
            bind_struct(f"impl<T: YaSerialize + YaDeserialize + Bind, const N: usize> Bind for {g}<T, N>", f"{g}", fs)
            continue
        params = "T, U" if "," in n else "T"
        traits = " + ".join(x for x, on in [("YaSerialize", d["ser"]), ("YaDeserialize", d["de"])] if on)
        bound = ", ".join(f"{x}: {traits}" for x in params.split(", "))
        if d["kind"] == "struct":
            fs = parse_fields(spec)
            w(f"{derives(d)}\n{container_attrs(d)}\npub struct {g}<{params}>\nwhere\n  {bound},\n{{\n{struct_body(d, fs)}\n}}")
            bind_struct(f"impl<{bound.replace(',', ' + Bind,')} + Bind> Bind for {g}<{params}>", g, fs)
        else:
            w(f"{derives(d)}\n{container_attrs(d)}\npub enum {g}<T>\nwhere\n  {bound},\n{{\n" + "\n".join(
                f"  {x.strip().lstrip('*').split(':')[0]}" + ("(T)" if ":" in x else "") + "," for x in spec.split(";")) + "\n}")
            w(f"impl<{bound}> Default for {g}<T> {{\n  fn default() -> Self {{\n    {g}::N\n  }}\n}}")
            bind_enum(f"impl<{bound} + Bind> Bind for {g}<T>", g, d["variants"], 0)
        continue
    if d["kind"] == "builtin":
        continue
    if d["mod"]:
        w(f"pub mod {d['mod']}_{uniq(d)} {{\n  use super::*;\n  #[allow(dead_code)]\n  type Result<T> = std::result::Result<T, ()>;")
    if d["kind"] == "struct":
        body = struct_body(d, d["fields"])
        if d["macro"]:
            w(f"macro_rules! mk_{uniq(d)} {{\n  ($n:ident, $s:ty, $o:ty, $v:ty, $l:ty) => {{\n    {derives(d)}\n    pub struct $n {{\n      pub a: $s,\n      pub o: Option<$o>,\n      pub v: Vec<$v>,\n      pub l: $l,\n    }}\n  }};\n}}\nmk_{uniq(d)}!({n}, String, u32, Leaf, Leaf);")
        else:
            w(f"{derives(d)}\n{container_attrs(d)}\npub struct {n} {{\n{body}\n}}")
        if d["mod"]: w(f"}}\npub use {d['mod']}_{uniq(d)}::{n};")
        bind_struct(f"impl Bind for {n}", n, d["fields"])
        sk = [f for f in d["fields"] if "skipif" in f[2]]
        if sk:
            w(f"impl {n} {{")
            for f in sk:
                w(f"  fn p_{raw(f[0])}(&self, v: &{f[1]}) -> bool {{\n    pred({q(f[2]['skipif'])}, &v.to_val())\n  }}")
            w("}")
        for f in d["fields"]:
            if "def" in f[2]:
                w(f"fn df_{uniq(d)}_{raw(f[0]).lower()}() -> {f[1]} {{\n  Bind::from_val(&{f[2]['def']})\n}}")
    elif d["kind"] == "enum":
        w(f"{derives(d)}\n{container_attrs(d)}\npub enum {n} {{\n{enum_body(d['variants'])}\n}}")
        if d["mod"]: w(f"}}\npub use {d['mod']}_{uniq(d)}::{n};")
        bind_enum(f"impl Bind for {n}", n, d["variants"], d["dflt"])
        w(f"impl Default for {n} {{\n  fn default() -> Self {{\n    Bind::from_val(&{dflt_val(d)})\n  }}\n}}")
    elif d["kind"] == "custom":
        # hand-written implementations
        w(f"#[derive(Debug, PartialEq, Clone)]\npub struct {n}(pub {d['sc']});")
        w(f"""impl YaSerialize for {n} {{
  fn serialize<W: std::io::Write>(&self, writer: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {{
    use yaserde::__xml::writer::XmlEvent;
    let own = !writer.skip_start_end();
    let name = writer.get_start_event_name().unwrap_or_else(|| "{n}".to_string());
    if own {{
      writer.write(XmlEvent::start_element(name.as_str())).map_err(|e| e.to_string())?;
    }}
    writer.write(XmlEvent::characters(&self.0)).map_err(|e| e.to_string())?;
    if own {{
      writer.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
    }}
    Ok(())
  }}
  fn serialize_attributes(
    &self,
    attributes: Vec<yaserde::__xml::attribute::OwnedAttribute>,
    namespace: yaserde::__xml::namespace::Namespace,
  ) -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> {{
    Ok((attributes, namespace))
  }}
}}
impl YaDeserialize for {n} {{
  fn deserialize<R: std::io::Read>(reader: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {{
    use yaserde::__xml::reader::XmlEvent;
    match reader.next_event()? {{
      XmlEvent::StartElement {{ .. }} => {{}}
      e => return Err(format!("no element: {{:?}}", e)),
    }}
    let mut text = String::new();
    loop {{
      match reader.peek()?.to_owned() {{
        XmlEvent::Characters(t) => {{
          text += &t;
          reader.next_event()?;
        }}
        // what is left is the caller's business
        _ => return Ok({n}(text)),
      }}
    }}
  }}
}}""")
        w(f"impl Bind for {n} {{\n  fn to_val(&self) -> Val {{\n    self.0.to_val()\n  }}\n  fn from_val(v: &Val) -> Self {{\n    {n}(Bind::from_val(v))\n  }}\n}}")
    elif d["kind"] == "prim":
        w(f"#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]\npub struct {n}(pub {d['sc']});")
        w(f"impl Bind for {n} {{\n  fn to_val(&self) -> Val {{\n    self.0.to_val()\n  }}\n  fn from_val(v: &Val) -> Self {{\n    {n}(Bind::from_val(v))\n  }}\n}}")
    elif d["kind"] == "default":
        w(f"#[derive(Debug, PartialEq, Clone, DefaultYaSerde)]\npub struct {n}(pub {d['sc']});")
        w(f"impl std::fmt::Display for {n} {{\n  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{\n    write!(f, \"{{}}\", self.0)\n  }}\n}}")
        w(f"impl std::str::FromStr for {n} {{\n  type Err = String;\n  fn from_str(s: &str) -> Result<Self, String> {{\n    s.parse().map({n}).map_err(|_| \"no\".to_string())\n  }}\n}}")
        w(f"impl Bind for {n} {{\n  fn to_val(&self) -> Val {{\n    self.0.to_val()\n  }}\n  fn from_val(v: &Val) -> Self {{\n    {n}(Bind::from_val(v))\n  }}\n}}")
    elif d["kind"] == "hex":
        bits, mask = d["sc"]
        # in a module of its own: the derive brings FromStr into scope
        w(f"pub mod h_{uniq(d)} {{\n  #[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]\n  pub struct {n}(pub u{bits});\n  impl {n} {{\n    pub fn from_bits(b: u{bits}) -> Option<Self> {{\n      (b & !({hex(mask)}u64 as u{bits}) == 0).then_some({n}(b))\n    }}\n    pub fn from_bits_truncate(b: u{bits}) -> Self {{\n      {n}(b & ({hex(mask)}u64 as u{bits}))\n    }}\n    pub fn from_bits_retain(b: u{bits}) -> Self {{\n      {n}(b)\n    }}\n    pub fn bits(&self) -> u{bits} {{\n      self.0\n    }}\n    pub fn all() -> Self {{\n      {n}({hex(mask)}u64 as u{bits})\n    }}\n    pub fn empty() -> Self {{\n      {n}(0)\n    }}\n    pub fn is_empty(&self) -> bool {{\n      self.0 == 0\n    }}\n  }}\n}}\npub use h_{uniq(d)}::{n};")
        w(f"impl Bind for {n} {{\n  fn to_val(&self) -> Val {{\n    Val::S(format!(\"{{:02X}}\", self.0))\n  }}\n  fn from_val(v: &Val) -> Self {{\n    {n}(u{bits}::from_str_radix(v.text(), 16).expect(\"hex\"))\n  }}\n}}")

# ---- schema
def field_schema(f):
    ident, ty, o = f
    m, b = parse_ty(ty)
    kind = "Attr" if "attr" in o else "Text" if "text" in o else "Cdata" if "cdata" in o else "Flatten" if "flat" in o else "Elem"
    name = o.get("name", raw(ident))
    return (f"Field {{ ident: {q(raw(ident))}, name: {q(name)}, prefix: {opt(o.get('ns'))}, kind: Kind::{kind}, mult: Mult::{m}, "
            f"base: {base_of(b)}, default: {'Some(' + o['def'] + ')' if 'def' in o else 'None'}, skip: {'true' if 'skip' in o else 'false'}, skip_if: {opt(o.get('skipif'))} }}")

w("\npub fn schema() -> Schema {\n  Schema {\n    list_attrs: false,\n    tys: vec![")
for d in types:
    if d["kind"] in ("struct", "hidden"):
        df = "Def::Struct(vec![" + ", ".join(field_schema(f) for f in d["fields"]) + "])"
    elif d["kind"] == "enum":
        vs = []
        for ident, ty, o in d["variants"]:
            pay = "None"
            if ty:
                m, b = parse_ty(ty)
                pay = f"Some((Mult::{m}, {base_of(b)}))"
            vs.append(f"Variant {{ ident: {q(raw(ident))}, name: {q(o.get('name', raw(ident)))}, prefix: {opt(o.get('ns'))}, flatten: {'true' if 'flat' in o else 'false'}, named: {'true' if 'named' in o else 'false'}, payload: {pay} }}")
        df = "Def::Enum(vec![" + ", ".join(vs) + f"], {dflt_val(d)})"
    elif d["kind"] == "builtin":
        df = f"Def::Prim(Sc::{d['sc']})"
    elif d["kind"] in ("prim", "default", "custom"):
        df = f"Def::{'Prim' if d['kind'] == 'prim' else 'Prim'}(Sc::{SC[d['sc']]})"
    else:
        df = f"Def::Hex({d['sc'][0]}, {hex(d['sc'][1])})"
    root = d["name"] or d["rust"]
    b = lambda x: "true" if x else "false"
    nss = ", ".join(f"({q(p)}, {q(u)})" for p, u in d["nss"])
    w(f"      Ty {{ id: {d['id']}, rust: {q(d['rust'])}, root: {q(root)}, prefix: {opt(d['ns'])}, dns: {opt(d['dns'])}, nss: vec![{nss}], flatten: {b(d['flatten'])}, tag: {opt(d['tag'])}, def: {df}, ser: {b(d['ser'])}, de: {b(d['de'])}, rt: {b(d['rt'])}, groups: {q(d['groups'])} }},")
w("    ],\n  }\n}")
w("\npub fn ops() -> Vec<Ops> {\n  vec![")
for d in types:
    n = d["rust"]
    de = f"Some(de::<{n}>)" if d["de"] else "None"
    se = (f"ser: Some(ser::<{n}>), ser_c: Some(ser_c::<{n}>), ser_content: Some(ser_content::<{n}>)" if d["ser"]
          else "ser: None, ser_c: None, ser_content: None")
    io = "io" in d["groups"].split()
    w(f"    Ops {{ de: {de}, de_r: {f'Some(de_r::<{n}>)' if io and d['de'] else 'None'}, {se}, ser_w: {f'Some(ser_w::<{n}>)' if io and d['ser'] else 'None'}, ser_cw: {f'Some(ser_cw::<{n}>)' if io and d['ser'] else 'None'} }},")
w("  ]\n}")
text = "\n".join(x for x in out if x != "") + "\n"
path = os.path.join(HERE, "..", "harness", "corpus", "src", "lib.rs")
if len(sys.argv) > 1 and sys.argv[1] == "--check":
    sys.exit(0 if open(path).read() == text else 1)
open(path, "w").write(text)
print(len(types), "types")
