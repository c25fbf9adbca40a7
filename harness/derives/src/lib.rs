//! The zoo of derived definitions, each with its reference model, shared by the derive checks.
#![allow(non_snake_case, non_camel_case_types, dead_code, deprecated, confusable_idents, uncommon_codepoints, mixed_script_confusables)]

pub mod wide;

pub use mc_core;
pub use mc_zoo::{model_enum, model_for, model_struct, Chooser, Def, Make, Model, Tri, RV};
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

model_struct! { #[derive(Serialize, Deserialize)] Two { a "a": u8, b "b": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] Three { id "id": u32, name "name": String, tags "tags": Vec<String> } }
model_struct! { #[derive(Serialize, Deserialize)] Near { a "a": u8, aa "aa": u8, A "A": u8, ab "ab": Option<u8>, a_ "a_": Option<u8>, _a "_a": u8 } }
model_struct! { #[derive(Serialize, Deserialize)] Raw { r#type "type": u8, r#fn "fn": String, r#match "match": Option<u8>, r#async "async": u8, r#notkw "notkw": u8, r "r": u8, rr "rr": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] Renamed {
    #[serde(rename = "x")] a "x": u8,
    #[serde(rename = "")] b "": u8,
    #[serde(rename = "with space")] c "with space": u8,
    #[serde(rename = "q\"uo\\te/")] d "q\"uo\\te/": Option<u8>,
    #[serde(rename = "\n\t\u{0}\u{1f}\u{7f}")] e "\n\t\u{0}\u{1f}\u{7f}": u8,
    #[serde(rename = "é😀\u{2028}")] f "é😀\u{2028}": u8,
    #[serde(rename = r"raw\n")] g r"raw\n": u8,
    #[serde(rename = "r#type")] h "r#type": u8,
} }
// A rename takes another field's name, which is renamed away.
model_struct! { #[derive(Serialize, Deserialize)] Swapped {
    #[serde(rename = "b")] a "b": u8,
    #[serde(rename = "a")] b "a": String,
    c "c": Option<u8>,
} }
model_struct! { #[derive(Serialize, Deserialize)] RawRenamed {
    #[serde(rename = "fn")] r#type "fn": u8,
    #[serde(rename = "type")] r#fn "type": Option<u8>,
    #[serde(rename = "plain")] r#struct "plain": u8,
    r#loop "loop": u8,
} }
model_struct! { #[derive(Serialize, Deserialize)] Internal {
    out "out": u8, data "data": u8, state "state": u8, k "k": u8, begin "begin": u8, finish "finish": Option<u8>, next "next": u8, s "s": u8, value "value": u8,
    #[serde(rename = "__out")] z "__out": u8,
    #[serde(rename = "__k")] y "__k": Option<u8>,
} }
model_struct! { #[derive(Serialize, Deserialize)] Unicode { é "é": u8, 名前 "名前": String, ñandú "ñandú": Option<u8> } }
model_struct! {
    /// Documented.
    #[derive(Serialize, Deserialize)]
    #[allow(unused)]
    #[repr(C)]
    Attributed {
        /// Documented field.
        a "a": u8,
        #[allow(unused)]
        #[serde(rename = "bee")]
        /// Between.
        #[doc = "more"]
        b "bee": u8,
        #[deprecated]
        c "c": Option<u8>,
        #[serde()]
        d "d": u8,
        #[serde(rename = "ee",)]
        e "ee": u8,
        #[cfg(all())]
        f "f": u8,
    }
}
model_struct! { #[derive(Serialize, Deserialize)] Kinds {
    unit "unit": (), flag "flag": bool, text "text": String, byte "byte": u8, int "int": i64, big "big": u64, float "float": f64, single "single": f32,
    boxed "boxed": Box<u8>, pair "pair": (u8, String), list "list": Vec<u8>, fixed "fixed": [u8; 3], map "map": BTreeMap<String, u8>,
    any "any": Value, number "number": Number, array "array": Array, object "object": Object,
} }
model_struct! { #[derive(Serialize, Deserialize)] Optionals {
    unit "unit": Option<()>, flag "flag": Option<bool>, text "text": Option<String>, list "list": Option<Vec<u8>>, nested "nested": Option<Two>,
    boxed "boxed": Option<Box<u8>>, twice "twice": Option<Option<u8>>, any "any": Option<Value>, color "color": Option<Color>, map "map": Option<BTreeMap<String, Two>>,
} }
// Box<Option> is not Option: it is required.
model_struct! { #[derive(Serialize, Deserialize)] NotOptional { a "a": Box<Option<u8>>, b "b": (Option<u8>, Option<u8>), c "c": [Option<u8>; 1], d "d": Vec<Option<u8>> } }
model_struct! { #[derive(Serialize, Deserialize)] Nested { inner "inner": Two, list "list": Vec<Two>, opt "opt": Option<Three>, boxed "boxed": Box<Two>, pair "pair": (Two, Color), empty "empty": wide::W0, fixed "fixed": [Two; 2] } }
model_struct! { #[derive(Serialize, Deserialize)] OnlyOptional { a "a": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] SameTypes { a "a": u8, b "b": u8, c "c": u8, d "d": u8 } }

mod recursive {
    use super::*;
    #[derive(Serialize, Deserialize)]
    pub struct Node {
        pub leaf: u8,
        pub kids: Vec<Node>,
        pub next: Option<Box<Node>>,
    }
    impl Model for Node {
        fn accepts(v: &RV) -> Tri {
            let RV::Obj(o) = v else { return Tri::No };
            let mut r = Tri::Yes;
            for (k, v) in o {
                r = r.max(match k.as_str() {
                    "leaf" => u8::accepts(v),
                    "kids" => Vec::<Node>::accepts(v),
                    "next" => Option::<Box<Node>>::accepts(v),
                    _ => mc_zoo::skip_accepts(v),
                });
            }
            for k in ["leaf", "kids"] {
                if !o.iter().any(|e| e.0 == k) {
                    r = Tri::No;
                }
            }
            r
        }
        fn is(&self, v: &RV) -> bool {
            let RV::Obj(o) = v else { return false };
            let last = |k: &str| o.iter().rev().find(|e| e.0 == k).map(|e| &e.1);
            last("leaf").map_or(false, |v| self.leaf.is(v))
                && last("kids").map_or(false, |v| self.kids.is(v))
                && last("next").map_or(self.next.is_none(), |v| self.next.is(v))
        }
    }
    impl Def for Node {
        fn fields() -> Option<Vec<mc_zoo::Field>> {
            Some(vec![
                mc_zoo::Field { key: "leaf", accepts: u8::accepts, absent_ok: false },
                mc_zoo::Field { key: "kids", accepts: Vec::<Node>::accepts, absent_ok: false },
                mc_zoo::Field { key: "next", accepts: Option::<Box<Node>>::accepts, absent_ok: true },
            ])
        }
        fn written(&self) -> RV {
            RV::Obj(vec![
                ("leaf".into(), mc_zoo::own(&self.leaf)),
                ("kids".into(), mc_zoo::own(&self.kids)),
                ("next".into(), mc_zoo::own(&self.next)),
            ])
        }
    }
    impl Make for Node {
        fn make(c: &mut Chooser) -> Self {
            fn go(c: &mut Chooser, d: usize) -> Node {
                let leaf = u8::make(c);
                let kids = if d < 2 { c.choose(3) } else { 0 };
                let kids = (0..kids).map(|_| go(c, d + 1)).collect();
                let next = if d < 2 && c.choose(2) == 1 { Some(Box::new(go(c, d + 1))) } else { None };
                Node { leaf, kids, next }
            }
            go(c, 0)
        }
    }
}
pub use recursive::Node;

// Generic definitions.
#[derive(Serialize, Deserialize)]
pub struct G1<T> {
    pub t: T,
}
model_for!([T: Model + Make + Serialize] [G1<T>] { t "t": T });
#[derive(Serialize, Deserialize)]
pub struct G2<A, B = u8>
where
    A: Debug + Clone,
{
    pub a: A,
    #[serde(rename = "bees")]
    pub b: Vec<B>,
    pub c: Option<A>,
}
model_for!([A: Model + Make + Serialize + Debug + Clone, B: Model + Make + Serialize] [G2<A, B>] { a "a": A, b "bees": Vec<B>, c "c": Option<A> });
#[derive(Serialize, Deserialize)]
pub struct G3<T: Clone + PartialEq, const N: usize> {
    pub items: [T; N],
    pub n: u8,
}
model_for!([T: Model + Make + Serialize + Clone + PartialEq, const N: usize] [G3<T, N>] { items "items": [T; N], n "n": u8 });
#[derive(Serialize, Deserialize)]
pub struct G4<const N: usize = 2, const B: bool = true> {
    pub r#type: [u8; N],
}
model_for!([const N: usize, const B: bool] [G4<N, B>] { r#type "type": [u8; N] });
/// A type that mentions a lifetime and can still be parsed.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mark<'a>(pub std::marker::PhantomData<&'a ()>);
impl<'a> Serialize for Mark<'a> {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::Null
    }
}
mod mark {
    use super::*;
    use miniserde::de::Visitor;
    miniserde::make_place!(Place);
    impl<'a> Deserialize for Mark<'a> {
        fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
            Place::new(out)
        }
    }
    impl<'a> Visitor for Place<Mark<'a>> {
        fn null(&mut self) -> miniserde::Result<()> {
            self.out = Some(Mark(std::marker::PhantomData));
            Ok(())
        }
    }
    impl<'a> Model for Mark<'a> {
        fn accepts(v: &RV) -> Tri {
            <()>::accepts(v)
        }
        fn is(&self, v: &RV) -> bool {
            *v == RV::Null
        }
    }
    impl<'a> Make for Mark<'a> {
        fn make(_: &mut Chooser) -> Self {
            Mark(std::marker::PhantomData)
        }
    }
}
#[derive(Serialize, Deserialize)]
pub struct G5<'a, 'b: 'a, T: 'a> {
    pub m: Mark<'a>,
    pub t: T,
    pub n: Option<Mark<'b>>,
}
model_for!(['a, 'b: 'a, T: 'a + Model + Make + Serialize] [G5<'a, 'b, T>] { m "m": Mark<'a>, t "t": T, n "n": Option<Mark<'b>> });
#[derive(Serialize, Deserialize)]
pub struct G6<'x, T, U = Vec<T>, const N: usize = 1>
where
    T: 'x + Clone,
    Vec<T>: Clone,
{
    #[serde(rename = "T")]
    pub t: T,
    #[serde(rename = "t")]
    pub u: U,
    pub m: [Mark<'x>; N],
}
model_for!(['x, T: 'x + Model + Make + Serialize + Clone, U: Model + Make + Serialize, const N: usize] [G6<'x, T, U, N>] { t "T": T, u "t": U, m "m": [Mark<'x>; N] });
// The same field type through an associated alias, and a field holding itself through generics.
pub type Alias = Option<u8>;
model_struct! { #[derive(Serialize, Deserialize)] Aliased { a "a": Alias, b "b": std::option::Option<u8>, c "c": ::core::option::Option<G1<Option<u8>>> } }

// Definitions produced by a macro, names included.
macro_rules! made {
    ($n:ident, $f:ident, $g:ident, $lit:literal) => {
        model_struct! { #[derive(Serialize, Deserialize)] $n { $f "first": u8, #[serde(rename = $lit)] $g $lit: Option<u8> } }
    };
}
made!(Made, first, second, "other name");

model_enum! { #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)] Color { Red "Red", Green "Green", Blue "Blue" } }
model_enum! { #[derive(Serialize, Deserialize)] #[repr(u8)] Discr { A "A" = 5, B "B" = 3, C "C", D "D" = 255 } }
model_enum! { #[derive(Serialize, Deserialize)] NearEnum { a "a", A "A", ab "ab", Aa "Aa", AA "AA", a_ "a_" } }
model_enum! { #[derive(Serialize, Deserialize)] RawEnum { r#type "type", r#fn "fn", r#Plain "Plain", r "r" } }
model_enum! { #[derive(Serialize, Deserialize)] RenamedEnum {
    #[serde(rename = "Second")] First "Second",
    #[serde(rename = "First")] Second "First",
    #[serde(rename = "")] Empty "",
    #[serde(rename = "a b\"\\/\n\u{0}é😀")] Odd "a b\"\\/\n\u{0}é😀",
    #[serde(rename = "r#type")] r#type "r#type",
    #[serde(rename = "null")] Null "null",
    #[serde(rename = "0")] Zero "0",
    /// Documented
    #[allow(unused)]
    #[serde(rename = "kept")] Kept "kept",
    Plain "Plain",
} }
model_enum! { #[derive(Serialize, Deserialize)] OneVariant { Only "Only" } }
model_enum! { #[derive(Serialize, Deserialize)] UnicodeEnum { Été "Été", 名 "名" } }

// Names that a rewriting of names (trimming, case, normalisation, formatting) would confuse.
model_struct! { #[derive(Serialize, Deserialize)] Prefixes { a_x "a_x": Option<u8>, x_a "x_a": u8, b_x "b_x": u8, x_b "x_b": Option<u8>, c_x "c_x": u8, x_c "x_c": u8, d_x "d_x": Option<u8>, x_d "x_d": u8, e_x "e_x": u8, x_e "x_e": Option<u8>, f_x "f_x": u8, x_f "x_f": u8, g_x "g_x": Option<u8>, x_g "x_g": u8, h_x "h_x": u8, x_h "x_h": Option<u8>, i_x "i_x": u8, x_i "x_i": u8, j_x "j_x": Option<u8>, x_j "x_j": u8, k_x "k_x": u8, x_k "x_k": Option<u8>, l_x "l_x": u8, x_l "x_l": u8, m_x "m_x": Option<u8>, x_m "x_m": u8, n_x "n_x": u8, x_n "x_n": Option<u8>, o_x "o_x": u8, x_o "x_o": u8, p_x "p_x": Option<u8>, x_p "x_p": u8, q_x "q_x": u8, x_q "x_q": Option<u8>, r_x "r_x": u8, x_r "x_r": u8, s_x "s_x": Option<u8>, x_s "x_s": u8, t_x "t_x": u8, x_t "x_t": Option<u8>, u_x "u_x": u8, x_u "x_u": u8, v_x "v_x": Option<u8>, x_v "x_v": u8, w_x "w_x": u8, x_w "x_w": Option<u8>, x_x "x_x": u8, y_x "y_x": Option<u8>, x_y "x_y": u8, z_x "z_x": u8, x_z "x_z": Option<u8>, r_ "r_": u8, r_r_ "r_r_": u8, r_type "r_type": Option<u8>, r__x "r__x": u8, a__b "a__b": u8, a1 "a1": Option<u8>, r1 "r1": u8, _1 "_1": u8, _r "_r": Option<u8>, _r_x "_r_x": u8, type_ "type_": u8, fn_ "fn_": Option<u8>, camelCase "camelCase": u8, PascalCase "PascalCase": u8, SCREAMING_CASE "SCREAMING_CASE": Option<u8>, snake_case "snake_case": u8, raw_ "raw_": u8, rr_ "rr_": Option<u8>, R_x "R_x": u8, Type "Type": u8, some "some": Option<u8>, None_ "None_": u8, ok "ok": u8, Err "Err": Option<u8>, miniserde "miniserde": u8, std "std": u8, core "core": Option<u8>, crate_ "crate_": u8, self_ "self_": u8, u8 "u8": Option<u8>, str "str": u8, Option "Option": u8, len_oooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooo "len_oooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooo": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] RawPrefixes { r#r_a "r_a": Option<u8>, r#raw "raw": u8, r#r "r": Option<u8>, r#type "type": u8, r#abstract "abstract": Option<u8>, r#dyn "dyn": u8, r#r_ "r_": Option<u8> } }
model_struct! { #[derive(Serialize, Deserialize)] Renamed2 { #[serde(rename = " a ")] f0 " a ": Option<u8>, #[serde(rename = " ")] f1 " ": u8, #[serde(rename = "a\t")] f2 "a\t": u8, #[serde(rename = "r#r#x")] f3 "r#r#x": Option<u8>, #[serde(rename = "#")] f4 "#": u8, #[serde(rename = "r")] f5 "r": u8, #[serde(rename = "r_")] f6 "r_": Option<u8>, #[serde(rename = "$ref")] f7 "$ref": u8, #[serde(rename = "@type")] f8 "@type": u8, #[serde(rename = "a.b")] f9 "a.b": Option<u8>, #[serde(rename = "kebab-case")] f10 "kebab-case": u8, #[serde(rename = "{}")] f11 "{}": u8, #[serde(rename = "{a}")] f12 "{a}": Option<u8>, #[serde(rename = "{0}")] f13 "{0}": u8, #[serde(rename = "%s")] f14 "%s": u8, #[serde(rename = "e\u{301}")] f15 "e\u{301}": Option<u8>, #[serde(rename = "\u{e9}")] f16 "\u{e9}": u8, #[serde(rename = "\u{212b}")] f17 "\u{212b}": u8, #[serde(rename = "\u{c5}")] f18 "\u{c5}": Option<u8>, #[serde(rename = "A")] f19 "A": u8, #[serde(rename = "\\u0041")] f20 "\\u0041": u8, #[serde(rename = "\\")] f21 "\\": Option<u8>, #[serde(rename = "\"")] f22 "\"": u8, #[serde(rename = "'")] f23 "'": u8, #[serde(rename = "//")] f24 "//": Option<u8>, #[serde(rename = "<b>")] f25 "<b>": u8, #[serde(rename = "null")] f26 "null": u8, #[serde(rename = "true")] f27 "true": Option<u8>, #[serde(rename = "1")] f28 "1": u8, #[serde(rename = "-1")] f29 "-1": u8, #[serde(rename = "0x10")] f30 "0x10": Option<u8>, #[serde(rename = "Type")] f31 "Type": u8, #[serde(rename = "type")] f32 "type": u8, #[serde(rename = "\u{feff}x")] f33 "\u{feff}x": Option<u8>, #[serde(rename = "\u{200d}")] f34 "\u{200d}": u8, #[serde(rename = "\u{10ffff}")] f35 "\u{10ffff}": u8, #[serde(rename = "\u{d7ff}")] f36 "\u{d7ff}": Option<u8>, #[serde(rename = "\u{80}")] f37 "\u{80}": u8, #[serde(rename = "\u{7f}")] f38 "\u{7f}": u8, #[serde(rename = "\u{2029}")] f39 "\u{2029}": Option<u8>, #[serde(rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")] f40 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx": u8 } }
model_enum! { #[derive(Serialize, Deserialize)] PrefixEnum { r_x "r_x", x_r "x_r", r_ "r_", r1 "r1", Rr "Rr", R_x "R_x", rRaw "rRaw", camelCase "camelCase", snake_case "snake_case", SCREAMING_CASE "SCREAMING_CASE", a__b "a__b", _1 "_1", _R "_R", type_ "type_", Some_ "Some_", None "None", Ok "Ok", Err "Err", Some "Some", Option "Option", String "String", Box "Box", Self_ "Self_", miniserde "miniserde", str "str", r#r_a "r_a", r#raw "raw", r#r "r", r#dyn "dyn" } }
model_enum! { #[derive(Serialize, Deserialize)] RenamedEnum2 { #[serde(rename = " a ")] V0 " a ", #[serde(rename = " ")] V1 " ", #[serde(rename = "a\t")] V2 "a\t", #[serde(rename = "r#r#x")] V3 "r#r#x", #[serde(rename = "#")] V4 "#", #[serde(rename = "r")] V5 "r", #[serde(rename = "r_")] V6 "r_", #[serde(rename = "$ref")] V7 "$ref", #[serde(rename = "@type")] V8 "@type", #[serde(rename = "a.b")] V9 "a.b", #[serde(rename = "kebab-case")] V10 "kebab-case", #[serde(rename = "{}")] V11 "{}", #[serde(rename = "{a}")] V12 "{a}", #[serde(rename = "{0}")] V13 "{0}", #[serde(rename = "%s")] V14 "%s", #[serde(rename = "e\u{301}")] V15 "e\u{301}", #[serde(rename = "\u{e9}")] V16 "\u{e9}", #[serde(rename = "\u{212b}")] V17 "\u{212b}", #[serde(rename = "\u{c5}")] V18 "\u{c5}", #[serde(rename = "A")] V19 "A", #[serde(rename = "\\u0041")] V20 "\\u0041", #[serde(rename = "\\")] V21 "\\", #[serde(rename = "\"")] V22 "\"", #[serde(rename = "'")] V23 "'", #[serde(rename = "//")] V24 "//", #[serde(rename = "<b>")] V25 "<b>", #[serde(rename = "null")] V26 "null", #[serde(rename = "true")] V27 "true", #[serde(rename = "1")] V28 "1", #[serde(rename = "-1")] V29 "-1", #[serde(rename = "0x10")] V30 "0x10", #[serde(rename = "Type")] V31 "Type", #[serde(rename = "type")] V32 "type", #[serde(rename = "\u{feff}x")] V33 "\u{feff}x", #[serde(rename = "\u{200d}")] V34 "\u{200d}", #[serde(rename = "\u{10ffff}")] V35 "\u{10ffff}", #[serde(rename = "\u{d7ff}")] V36 "\u{d7ff}", #[serde(rename = "\u{80}")] V37 "\u{80}", #[serde(rename = "\u{7f}")] V38 "\u{7f}", #[serde(rename = "\u{2029}")] V39 "\u{2029}", #[serde(rename = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")] V40 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" } }

/// Calls `$m!([Type] [Type] ...)` with every struct.
#[macro_export]
macro_rules! structs {
    ($m:ident) => {
        $crate::wide_structs!($m
            [$crate::Two] [$crate::Three] [$crate::Near] [$crate::Raw] [$crate::Renamed] [$crate::Swapped] [$crate::RawRenamed] [$crate::Internal]
            [$crate::Unicode] [$crate::Attributed] [$crate::Kinds] [$crate::Optionals] [$crate::NotOptional] [$crate::Nested] [$crate::OnlyOptional]
            [$crate::SameTypes] [$crate::Node] [$crate::G1<u8>] [$crate::G1<Option<u8>>] [$crate::G1<String>] [$crate::G1<Vec<u8>>] [$crate::G1<$crate::G1<Box<u8>>>] [$crate::G1<$crate::Color>]
            [$crate::G1<[Option<u8>; 2]>] [$crate::G1<$crate::Two>]
            [$crate::G2<u8, String>] [$crate::G2<Option<u8>>] [$crate::G2<String, $crate::Two>] [$crate::G3<u8, 0>] [$crate::G3<u8, 1>] [$crate::G3<String, 3>] [$crate::G3<Option<u8>, 17>]
            [$crate::G4] [$crate::G4<0, false>] [$crate::G4<33>] [$crate::G5<'static, 'static, u8>] [$crate::G5<'static, 'static, Option<String>>]
            [$crate::G6<'static, u8>] [$crate::G6<'static, u8, Option<u8>, 3>] [$crate::Aliased] [$crate::Made] [$crate::Prefixes] [$crate::RawPrefixes] [$crate::Renamed2])
    };
}
#[macro_export]
macro_rules! enums {
    ($m:ident) => {
        $crate::wide_enums!($m [$crate::Color] [$crate::Discr] [$crate::NearEnum] [$crate::RawEnum] [$crate::RenamedEnum] [$crate::OneVariant] [$crate::UnicodeEnum] [$crate::PrefixEnum] [$crate::RenamedEnum2])
    };
}
