//! Codecs generated by the derive macros, in every style the crate offers.
use crate::case;
use crate::model::*;
use crate::norm::Norm;
use crate::types::{bx, oid, u32t, Case};
use crate::v::*;
use asn1_rs::*;

/// one ASN.1 structure, once for every style of derive
macro_rules! shape {
    ($m:ident [$($l:lifetime)?] [$($s:lifetime)?] { $( $(#[$a:meta])* $f:ident : $t:ty ),* $(,)? }) => {
        pub mod $m {
            use super::*;
            #[derive(DerSequence, ToBerSequence, ToDerSequence)]
            pub struct Old $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            #[derive(BerSequence, ToBerSequence)]
            pub struct OldBer $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            #[derive(BerSet, ToBerSet)]
            pub struct OldBerSet $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            shape!(@norm OldBer [$($s)?] $($f)*);
            shape!(@norm OldBerSet [$($s)?] $($f)*);
            #[derive(BerParserSequence)]
            #[derive(DerParserSequence, ToBerSequence, ToDerSequence)]
            pub struct Mid $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            #[derive(Sequence)]
            pub struct New $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            #[derive(DerSet, ToBerSet, ToDerSet)]
            pub struct OldSet $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            #[derive(BerParserSet)]
            #[derive(DerParserSet, ToBerSet, ToDerSet)]
            pub struct MidSet $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            #[derive(Set)]
            pub struct NewSet $(<$l>)? { $( $(#[$a])* pub $f: $t ),* }
            shape!(@norm Old [$($s)?] $($f)*);
            shape!(@norm Mid [$($s)?] $($f)*);
            shape!(@norm New [$($s)?] $($f)*);
            shape!(@norm OldSet [$($s)?] $($f)*);
            shape!(@norm MidSet [$($s)?] $($f)*);
            shape!(@norm NewSet [$($s)?] $($f)*);
        }
    };
    (@norm $n:ident [$($l:lifetime)?] $($f:ident)*) => {
        impl Norm for $n $(<$l>)? { fn norm(&self) -> V { V::List(vec![$(self.$f.norm()),*]) } }
    };
}

/// the cases of one structure
macro_rules! shape_cases {
    ($r:ident, $m:ident, $n:literal, [$($l:lifetime)?], $fields:expr) => {{
        use $m::*;
        let f: Vec<(Ty, FieldMode)> = $fields;
        case!($r, "derived", concat!("DerSequence ", $n), Old $(<$l>)?, Ty::Struct(f.clone()), [ber der optber optder tryany], [fbb fdd], []);
        case!($r, "derived", concat!("BerSequence ", $n), OldBer $(<$l>)?, Ty::Struct(f.clone()), [ber optber tryany], [fbb], []);
        case!($r, "derived", concat!("BerSet ", $n), OldBerSet $(<$l>)?, Ty::StructSet(f.clone()), [ber optber tryany], [fbb], []);
        case!($r, "derived", concat!("BerParserSequence/DerParserSequence ", $n), Mid $(<$l>)?, Ty::Struct(f.clone()), [par], [bb bd dd], []);
        case!($r, "derived", concat!("Sequence ", $n), New $(<$l>)?, Ty::Struct(f.clone()), [par], [bb bd dd], []);
        case!($r, "derived", concat!("DerSet ", $n), OldSet $(<$l>)?, Ty::StructSet(f.clone()), [ber der optber optder tryany], [fbb fdd], []);
        case!($r, "derived", concat!("BerParserSet/DerParserSet ", $n), MidSet $(<$l>)?, Ty::StructSet(f.clone()), [par], [bb bd dd], []);
        case!($r, "derived", concat!("Set ", $n), NewSet $(<$l>)?, Ty::StructSet(f), [par], [bb bd dd], []);
    }};
}

shape!(plain [] [] { a: u32, b: bool, c: Vec<u16> });
shape!(empty [] [] {});
shape!(expl [] [] {
    #[tag_explicit(0)] a: u32,
    #[tag_explicit(APPLICATION 31)] b: bool,
    #[tag_explicit(PRIVATE 200)] c: String,
    #[tag_explicit(1)] d: Vec<u32>,
});
shape!(impl_ ['a] ['_] {
    #[tag_implicit(0)] a: u32,
    #[tag_implicit(APPLICATION 31)] b: bool,
    #[tag_implicit(PRIVATE 20000)] c: OctetString<'a>,
    #[tag_implicit(1)] d: Vec<u32>,
});
shape!(opt ['a] ['_] {
    #[tag_explicit(0)] #[optional] a: Option<u32>,
    #[tag_implicit(1)] #[optional] b: Option<OctetString<'a>>,
    #[optional] c: Option<bool>,
    d: Option<String>,
    e: u8,
});
shape!(last [] [] {
    a: u8,
    #[tag_explicit(40)] #[optional] b: Option<u32>,
    #[tag_implicit(41)] #[optional] c: Option<Vec<bool>>,
    #[optional] d: Option<u32>,
});
shape!(dflt [] [] {
    a: u16,
    #[default(7_u16)] b: u16,
    #[tag_explicit(1)] #[default(true)] c: bool,
    #[tag_implicit(31)] #[default(0_i32)] d: i32,
    e: bool,
});
shape!(refs ['a] ['_] {
    a: Oid<'a>,
    b: Utf8String<'a>,
    #[optional] c: Option<BitString>,
    d: Any<'a>,
    e: TaggedExplicit<Integer<'a>, Error, 3>,
});
shape!(nest [] [] {
    a: TaggedExplicit<Vec<u8>, Error, 5>,
    b: Option<TaggedExplicit<u32, Error, 6>>,
    c: Option<TaggedImplicit<u32, Error, 7>>,
});

// tag numbers at the limits of each length of the long form, and numbers that differ by a multiple of 256
shape!(big ['a] ['_] {
    #[tag_explicit(30)] a: u32,
    #[tag_explicit(257)] b: u32,
    #[tag_implicit(1)] c: u32,
    #[tag_implicit(256)] d: OctetString<'a>,
    #[tag_explicit(65535)] e: Vec<u32>,
    #[tag_implicit(127)] f: Vec<bool>,
    #[tag_explicit(128)] #[optional] g: Option<bool>,
    #[tag_implicit(16383)] #[optional] h: Option<u32>,
    #[tag_implicit(16384)] #[optional] i: Option<OctetString<'a>>,
    #[tag_explicit(286)] #[default(7_u8)] j: u8,
    #[tag_implicit(PRIVATE 542)] #[default(3_u8)] k: u8,
    #[tag_explicit(UNIVERSAL 61)] l: u32,
    #[tag_implicit(UNIVERSAL 317)] m: bool,
});

/// structures that contain structures
macro_rules! outer {
    ($m:ident, $k:ident, $([$($e:ident),*])*) => {
        pub mod $m {
            use super::*;
            $(#[derive($($e),*)])*
            pub struct Outer {
                pub a: plain::$k,
                #[tag_explicit(3)] pub b: plain::$k,
                #[tag_implicit(4)] pub c: plain::$k,
                #[tag_explicit(5)] #[optional] pub d: Option<expl::$k>,
                #[optional] pub e: Option<last::$k>,
                #[tag_implicit(33)] pub f: last::$k,
            }
            impl Norm for Outer { fn norm(&self) -> V { V::List(vec![self.a.norm(), self.b.norm(), self.c.norm(), self.d.norm(), self.e.norm(), self.f.norm()]) } }
            $(#[derive($($e),*)])*
            pub struct Lists {
                pub a: Vec<dflt::$k>,
                #[tag_explicit(3)] pub b: Vec<last::$k>,
                #[optional] pub c: Option<Vec<expl::$k>>,
            }
            impl Norm for Lists { fn norm(&self) -> V { V::List(vec![self.a.norm(), self.b.norm(), self.c.norm()]) } }
        }
    };
}
outer!(outer_old, Old, [DerSequence, ToBerSequence, ToDerSequence]);
outer!(outer_mid, Mid, [BerParserSequence] [DerParserSequence, ToBerSequence, ToDerSequence]);
outer!(outer_new, New, [Sequence]);

mod choices {
    use super::*;
    macro_rules! choice {
        ($m:ident, [$($attr:ident)?], { $($(#[$a:meta])* $v:ident($t:ty) = $k:literal),* }) => {
            pub mod $m {
                use super::*;
                #[derive(BerParserChoice)]
            #[derive(DerParserChoice)]
                $(#[$attr])?
                pub enum Mid { $( $v($t) ),* }
                #[derive(Choice)]
                $(#[$attr])?
                pub enum New { $( $(#[$a])* $v($t) ),* }
                impl Norm for Mid { fn norm(&self) -> V { match self { $( Mid::$v(x) => V::Alt($k, Box::new(x.norm())) ),* } } }
                impl Norm for New { fn norm(&self) -> V { match self { $( New::$v(x) => V::Alt($k, Box::new(x.norm())) ),* } } }
            }
        };
    }
    choice!(untagged, [], { A(u32) = 0, B(String) = 1, C(Vec<u32>) = 2, D(BitString) = 3 });
    choice!(explicit, [tagged_explicit], { A(u32) = 0, B(String) = 1, #[tag(4)] C(Vec<u32>) = 2, D(u32) = 3, #[tag(31)] E(bool) = 4 });
    choice!(implicit, [tagged_implicit], { A(u32) = 0, B(String) = 1, #[tag(4)] C(Vec<u32>) = 2, D(u32) = 3, #[tag(200)] E(bool) = 4 });
    choice!(big_explicit, [tagged_explicit], { #[tag(257)] A(u32) = 0, #[tag(1)] B(u32) = 1, #[tag(65536)] C(Vec<u32>) = 2, D(u32) = 3, #[tag(2097152)] E(bool) = 4 });
    choice!(big_implicit, [tagged_implicit], { #[tag(257)] A(u32) = 0, #[tag(1)] B(u32) = 1, #[tag(65536)] C(Vec<u32>) = 2, D(u32) = 3, #[tag(2097152)] E(bool) = 4 });
    #[derive(Sequence)]
    pub struct InSeq {
        pub a: untagged::New,
        #[optional]
        pub b: Option<explicit::New>,
        pub c: Vec<implicit::New>,
        #[tag_explicit(9)]
        pub d: untagged::New,
    }
    impl Norm for InSeq {
        fn norm(&self) -> V {
            V::List(vec![self.a.norm(), self.b.norm(), self.c.norm(), self.d.norm()])
        }
    }
    /// a choice between choices
    #[derive(Choice)]
    pub enum Nested {
        A(untagged::New),
        B(bool),
        C(plainset::S),
    }
    pub mod plainset {
        use super::*;
        #[derive(Set)]
        pub struct S {
            pub a: u8,
        }
        impl Norm for S {
            fn norm(&self) -> V {
                V::List(vec![self.a.norm()])
            }
        }
    }
    impl Norm for Nested {
        fn norm(&self) -> V {
            match self {
                Nested::A(x) => V::Alt(0, Box::new(x.norm())),
                Nested::B(x) => V::Alt(1, Box::new(x.norm())),
                Nested::C(x) => V::Alt(2, Box::new(x.norm())),
            }
        }
    }
}

mod enums {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Enumerated)]
    #[repr(u32)]
    pub enum Counted {
        A,
        B,
        C,
    }
    #[derive(Clone, Copy, PartialEq, Enumerated)]
    #[repr(u32)]
    pub enum Valued {
        A = 3,
        B,
        C = 127,
        D,
        E = 0x8000,
        F = 0xffff_fffe,
        G,
    }
    impl Norm for Counted {
        fn norm(&self) -> V {
            (match self {
                Counted::A => 0u32,
                Counted::B => 1,
                Counted::C => 2,
            })
            .norm()
        }
    }
    impl Norm for Valued {
        fn norm(&self) -> V {
            (match self {
                Valued::A => 3u32,
                Valued::B => 4,
                Valued::C => 127,
                Valued::D => 128,
                Valued::E => 0x8000,
                Valued::F => 0xffff_fffe,
                Valued::G => 0xffff_ffff,
            })
            .norm()
        }
    }
}

mod aliases {
    use super::*;
    macro_rules! alias {
        ($m:ident [$($l:lifetime)?] [$($s:lifetime)?] $t:ty) => {
            pub mod $m {
                use super::*;
                #[derive(DerAlias)]
                pub struct Old $(<$l>)? (pub $t);
                #[derive(BerParserAlias)]
            #[derive(DerParserAlias)]
                pub struct Mid $(<$l>)? (pub $t);
                #[derive(Alias)]
                pub struct New $(<$l>)? (pub $t);
                impl Norm for Old $(<$s>)? { fn norm(&self) -> V { self.0.norm() } }
                impl Norm for Mid $(<$s>)? { fn norm(&self) -> V { self.0.norm() } }
                impl Norm for New $(<$s>)? { fn norm(&self) -> V { self.0.norm() } }
            }
        };
    }
    alias!(int [] [] u32);
    alias!(boolean [] [] bool);
    alias!(ia5 ['a] ['_] Ia5String<'a>);
    alias!(octets ['a] ['_] OctetString<'a>);
    alias!(bits [] [] BitString);
    alias!(list [] [] Vec<u32>);
    // aliases of the untyped element are recognised by the name of the type
    #[derive(DerAlias)]
    pub struct AnyOld<'a>(pub Any<'a>);
    #[derive(Alias)]
    pub struct AnyNew<'a>(pub Any<'a>);
    impl Norm for AnyOld<'_> {
        fn norm(&self) -> V {
            self.0.norm()
        }
    }
    impl Norm for AnyNew<'_> {
        fn norm(&self) -> V {
            self.0.norm()
        }
    }
    #[derive(Alias)]
    pub struct SeqNew(pub plain::New);
    impl Norm for SeqNew {
        fn norm(&self) -> V {
            self.0.norm()
        }
    }
}

/// owned copies of derived structures
#[cfg(feature = "std")]
mod owned {
    use super::*;
    #[derive(Sequence, ToStatic)]
    pub struct S<'a> {
        pub a: asn1_rs::Sequence<'a>,
        pub b: String,
        pub c: Option<asn1_rs::Set<'a>>,
        pub d: Vec<asn1_rs::Sequence<'a>>,
    }
    impl Norm for S<'_> {
        fn norm(&self) -> V {
            V::List(vec![self.a.norm(), self.b.norm(), self.c.norm(), self.d.norm()])
        }
    }
}

pub fn cases(r: &mut Vec<Case>) {
    use FieldMode::*;
    use Ty::{Expl as X, Impl as I};
    let l = |t: Ty| Ty::SeqOf(bx(t), Coll::List);
    let s = || Ty::Str(Rep::Utf8);
    let f_plain = || vec![(u32t(), Plain), (Ty::Bool, Plain), (l(Ty::Int(false, 16)), Plain)];
    let f_expl = || vec![(X(2, 0, bx(u32t())), Plain), (X(1, 31, bx(Ty::Bool)), Plain), (X(3, 200, bx(s())), Plain), (X(2, 1, bx(l(u32t()))), Plain)];
    let f_impl = || vec![(I(2, 0, bx(u32t())), Plain), (I(1, 31, bx(Ty::Bool)), Plain), (I(3, 20000, bx(Ty::Oct)), Plain), (I(2, 1, bx(l(u32t()))), Plain)];
    let f_opt = || vec![(X(2, 0, bx(u32t())), Optional), (I(2, 1, bx(Ty::Oct)), Optional), (Ty::Bool, Optional), (s(), Optional), (Ty::Int(false, 8), Plain)];
    let f_last = || vec![(Ty::Int(false, 8), Plain), (X(2, 40, bx(u32t())), Optional), (I(2, 41, bx(l(Ty::Bool))), Optional), (u32t(), Optional)];
    let f_dflt = || {
        vec![
            (Ty::Int(false, 16), Plain),
            (Ty::Int(false, 16), Default(V::Int(vec![7]))),
            (X(2, 1, bx(Ty::Bool)), Default(V::Bool(true))),
            (I(2, 31, bx(Ty::Int(true, 32))), Default(V::Int(vec![0]))),
            (Ty::Bool, Plain),
        ]
    };
    let f_refs = || vec![(oid(), Plain), (s(), Plain), (Ty::Bits, Optional), (Ty::Any, Plain), (X(2, 3, bx(Ty::BigInt)), Plain)];
    let f_nest = || vec![(X(2, 5, bx(l(Ty::Int(false, 8)))), Plain), (X(2, 6, bx(u32t())), Optional), (I(2, 7, bx(u32t())), Optional)];
    shape_cases!(r, plain, "plain", [], f_plain());
    shape_cases!(r, empty, "empty", [], vec![]);
    shape_cases!(r, expl, "explicit", [], f_expl());
    shape_cases!(r, impl_, "implicit", ['_], f_impl());
    shape_cases!(r, opt, "optional", ['_], f_opt());
    shape_cases!(r, last, "trailing optional", [], f_last());
    shape_cases!(r, dflt, "default", [], f_dflt());
    shape_cases!(r, refs, "borrowed", ['_], f_refs());
    shape_cases!(r, nest, "tagged fields", [], f_nest());
    let f_big = || {
        vec![
            (X(2, 30, bx(u32t())), Plain),
            (X(2, 257, bx(u32t())), Plain),
            (I(2, 1, bx(u32t())), Plain),
            (I(2, 256, bx(Ty::Oct)), Plain),
            (X(2, 65535, bx(l(u32t()))), Plain),
            (I(2, 127, bx(l(Ty::Bool))), Plain),
            (X(2, 128, bx(Ty::Bool)), Optional),
            (I(2, 16383, bx(u32t())), Optional),
            (I(2, 16384, bx(Ty::Oct)), Optional),
            (X(2, 286, bx(Ty::Int(false, 8))), Default(V::Int(vec![7]))),
            (I(3, 542, bx(Ty::Int(false, 8))), Default(V::Int(vec![3]))),
            (X(0, 61, bx(u32t())), Plain),
            (I(0, 317, bx(Ty::Bool)), Plain),
        ]
    };
    shape_cases!(r, big, "large tag numbers, default", ['_], f_big());
    let st = |f: Vec<(Ty, FieldMode)>| Ty::Struct(f);
    let f_outer = || {
        vec![
            (st(f_plain()), Plain),
            (X(2, 3, bx(st(f_plain()))), Plain),
            (I(2, 4, bx(st(f_plain()))), Plain),
            (X(2, 5, bx(st(f_expl()))), Optional),
            (st(f_last()), Optional),
            (I(2, 33, bx(st(f_last()))), Plain),
        ]
    };
    let f_lists = || vec![(l(st(f_dflt())), Plain), (X(2, 3, bx(l(st(f_last())))), Plain), (l(st(f_expl())), Optional)];
    case!(r, "derived", "DerSequence nested", outer_old::Outer, st(f_outer()), [ber der optber optder tryany], [fbb fdd], []);
    case!(r, "derived", "BerParserSequence/DerParserSequence nested", outer_mid::Outer, st(f_outer()), [par], [bb bd dd], []);
    case!(r, "derived", "Sequence nested", outer_new::Outer, st(f_outer()), [par], [bb bd dd], []);
    case!(r, "derived", "DerSequence lists", outer_old::Lists, st(f_lists()), [ber der optber optder tryany], [fbb fdd], []);
    case!(r, "derived", "BerParserSequence/DerParserSequence lists", outer_mid::Lists, st(f_lists()), [par], [bb bd dd], []);
    case!(r, "derived", "Sequence lists", outer_new::Lists, st(f_lists()), [par], [bb bd dd], []);
    case!(r, "derived", "Vec of DerSequence optional", Vec<last::Old>, l(st(f_last())), [ber der], [fbb fdd], []);
    case!(r, "derived", "Vec of DerSequence explicit", Vec<expl::Old>, l(st(f_expl())), [ber der], [fbb fdd], []);
    case!(r, "derived", "TaggedExplicit of DerSequence default", TaggedExplicit<dflt::Old, Error, 1>, X(2, 1, bx(st(f_dflt()))), [ber der], [fbb fdd], []);
    case!(r, "derived", "TaggedImplicit of DerSequence optional", TaggedImplicit<last::Old, Error, 1>, I(2, 1, bx(st(f_last()))), [ber der], [fbb fdd], []);
    case!(r, "derived", "TaggedImplicit of Sequence optional", TaggedImplicit<last::New, Error, 1>, I(2, 1, bx(st(f_last()))), [par], [bb bd dd], []);

    let a = |k: u32, t: Ty| Ty::As(k, bx(t));
    let c_un = || Ty::Choice(vec![a(0, u32t()), a(1, s()), a(2, l(u32t())), a(3, Ty::Bits)]);
    let tagged = |x: bool, tags: [u32; 5]| {
        let ts = vec![u32t(), s(), l(u32t()), u32t(), Ty::Bool];
        Ty::Choice(ts.into_iter().zip(tags).enumerate().map(|(k, (t, g))| a(k as u32, if x { X(2, g, bx(t)) } else { I(2, g, bx(t)) })).collect())
    };
    let c_ex = || tagged(true, [0, 1, 4, 5, 31]);
    let c_im = || tagged(false, [0, 1, 4, 5, 200]);
    case!(r, "derived", "BerParserChoice/DerParserChoice untagged", choices::untagged::Mid, c_un(), [par], [], []);
    case!(r, "derived", "Choice untagged", choices::untagged::New, c_un(), [par], [bb bd dd], []);
    case!(r, "derived", "BerParserChoice/DerParserChoice explicit", choices::explicit::Mid, tagged(true, [0, 1, 2, 3, 4]), [par], [], []);
    case!(r, "derived", "Choice explicit", choices::explicit::New, c_ex(), [par], [bb bd dd], []);
    case!(r, "derived", "BerParserChoice/DerParserChoice implicit", choices::implicit::Mid, tagged(false, [0, 1, 2, 3, 4]), [par], [], []);
    case!(r, "derived", "Choice implicit", choices::implicit::New, c_im(), [par], [bb bd dd], []);
    let big = |x: bool| {
        let ts = vec![(257, u32t()), (1, u32t()), (65536, l(u32t())), (65537, u32t()), (2097152, Ty::Bool)];
        Ty::Choice(ts.into_iter().enumerate().map(|(k, (g, t))| a(k as u32, if x { X(2, g, bx(t)) } else { I(2, g, bx(t)) })).collect())
    };
    case!(r, "derived", "Choice explicit, large tag numbers", choices::big_explicit::New, big(true), [par], [bb bd dd], []);
    case!(r, "derived", "Choice implicit, large tag numbers", choices::big_implicit::New, big(false), [par], [bb bd dd], []);
    case!(r, "derived", "Sequence with choices", choices::InSeq, st(vec![(c_un(), Plain), (c_ex(), Optional), (l(c_im()), Plain), (X(2, 9, bx(c_un())), Plain)]), [par], [bb bd dd], []);
    case!(
        r,
        "derived",
        "Choice nested",
        choices::Nested,
        Ty::Choice(vec![a(0, c_un()), a(1, Ty::Bool), a(2, Ty::StructSet(vec![(Ty::Int(false, 8), Plain)]))]),
        [par],
        [bb bd dd],
        []
    );
    case!(r, "derived", "Vec of Choice implicit", Vec<choices::implicit::New>, l(c_im()), [par], [bb bd dd], []);
    case!(r, "derived", "Enumerated counted", enums::Counted, Ty::EnumOf(vec![0, 1, 2]), [par], [bb bd dd], []);
    case!(r, "derived", "Enumerated valued", enums::Valued, Ty::EnumOf(vec![3, 4, 127, 128, 0x8000, 0xffff_fffe, 0xffff_ffff]), [par], [bb bd dd], []);
    case!(r, "derived", "TaggedImplicit of Enumerated", TaggedImplicit<enums::Valued, Error, 2>, I(2, 2, bx(Ty::EnumOf(vec![3, 4, 127, 128, 0x8000, 0xffff_fffe, 0xffff_ffff]))), [], [], []);

    macro_rules! al {
        ($m:ident, $n:literal, [$($l:lifetime)?], $ty:expr) => {
            case!(r, "derived", concat!("DerAlias of ", $n), aliases::$m::Old $(<$l>)?, $ty, [ber der optber optder tryany], [], []);
            case!(r, "derived", concat!("BerParserAlias/DerParserAlias of ", $n), aliases::$m::Mid $(<$l>)?, $ty, [par], [], []);
            case!(r, "derived", concat!("Alias of ", $n), aliases::$m::New $(<$l>)?, $ty, [par], [bb bd dd], []);
        };
    }
    al!(int, "u32", [], u32t());
    al!(boolean, "bool", [], Ty::Bool);
    al!(ia5, "Ia5String", ['_], Ty::Str(Rep::Ia5));
    al!(octets, "OctetString", ['_], Ty::Oct);
    al!(bits, "BitString", [], Ty::Bits);
    al!(list, "Vec<u32>", [], l(u32t()));
    case!(r, "derived", "DerAlias of Any", aliases::AnyOld<'_>, Ty::Any, [ber der tryany], [], []);
    case!(r, "derived", "Alias of Any", aliases::AnyNew<'_>, Ty::Any, [berp derp asin asinder], [bb bd dd], []);
    case!(r, "derived", "Alias of Sequence", aliases::SeqNew, st(f_plain()), [par], [bb bd dd], []);
    #[cfg(feature = "std")]
    case!(r, "derived", "ToStatic", owned::S<'_>, st(vec![(Ty::SeqRaw, Plain), (s(), Plain), (Ty::SetRaw, Optional), (l(Ty::SeqRaw), Plain)]), [par], [bb bd dd], [st se]);
}

/// structures used by values made with constructors
#[cfg(feature = "full")]
pub mod shapes_ind {
    use asn1_rs::*;
    #[derive(ToBerSequence)]
    pub struct S {
        pub a: IndefiniteVec<bool>,
        pub b: TaggedExplicit<IndefiniteVec<bool>, Error, 1>,
        pub c: TaggedImplicit<IndefiniteVec<bool>, Error, 2>,
        pub d: Option<IndefiniteVec<bool>>,
        pub e: Vec<bool>,
    }
    #[derive(ToBerSet)]
    pub struct T {
        pub a: IndefiniteVec<bool>,
        pub b: TaggedExplicit<IndefiniteVec<bool>, Error, 1>,
        pub c: TaggedImplicit<IndefiniteVec<bool>, Error, 2>,
        pub d: Option<IndefiniteVec<bool>>,
        pub e: Vec<bool>,
    }
    macro_rules! full {
        ($n:ident $d:ident) => {
            #[derive($d)]
            pub struct $n<'a> {
                pub a: OctetString<'a>,
                #[tag_explicit(1)]
                pub b: OctetString<'a>,
                #[tag_implicit(2)]
                pub c: OctetString<'a>,
                #[tag_explicit(3)]
                #[optional]
                pub d: Option<OctetString<'a>>,
                #[tag_implicit(4)]
                #[optional]
                pub e: Option<OctetString<'a>>,
                #[tag_implicit(41)]
                pub f: Vec<OctetString<'a>>,
                #[tag_implicit(40)]
                #[optional]
                pub g: Option<OctetString<'a>>,
            }
        };
    }
    full!(F Sequence);
    full!(G Set);
}
pub mod choice_ind {
    use asn1_rs::*;
    #[derive(Choice)]
    pub enum C<'a> {
        A(bool),
        B(OctetString<'a>),
    }
    #[derive(Choice)]
    #[tagged_explicit]
    pub enum E<'a> {
        A(bool),
        B(OctetString<'a>),
    }
    #[derive(Choice)]
    #[tagged_implicit]
    pub enum I<'a> {
        A(bool),
        B(OctetString<'a>),
    }
}
