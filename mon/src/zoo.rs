//! The zoo: target types composed from the supported impls and derives.

use crate::model::{Modeled, Schema, Word, M};
use crate::rng::Rng;
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;
use std::hash::{BuildHasher, Hasher};

macro_rules! strukt {
    ($(#[$m:meta])* $name:ident $(<$($g:ident $(: $b:path)?),* $(; const $c:ident : $ct:ty)?>)? {
        $( $(#[$fm:meta])* $f:ident / $json:literal : $t:ty ),* $(,)?
    }) => {
        #[derive(Serialize, Deserialize)]
        $(#[$m])*
        pub struct $name $(<$($g $(: $b)?),* $(, const $c: $ct)?>)? { $( $(#[$fm])* pub $f: $t ),* }

        impl $(<$($g: Modeled $(+ $b)?),* $(, const $c: $ct)?>)? Modeled for $name $(<$($g),* $(, $c)?>)? {
            fn schema() -> Schema {
                #[allow(unused_mut)]
                let mut v: Vec<(&'static str, Schema)> = Vec::new();
                $( v.push(($json, crate::zoo::opt::<$t>())); )*
                Schema::Struct(v)
            }
            fn dump(&self) -> M {
                M::Struct(vec![ $( self.$f.dump() ),* ])
            }
            #[allow(unused_variables)]
            fn gen(r: &mut Rng, d: usize) -> Self {
                $name { $( $f: <$t as Modeled>::gen(r, d.saturating_sub(1)) ),* }
            }
        }
    };
}

pub(crate) use strukt;

pub fn opt<T: Modeled>() -> Schema {
    Schema::Lazy(T::schema)
}

macro_rules! unit_enum {
    ($(#[$m:meta])* $name:ident { $( $(#[$vm:meta])* $v:ident $(= $disc:literal)? / $json:literal ),* $(,)? }) => {
        #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
        $(#[$m])*
        pub enum $name { $( $(#[$vm])* $v $(= $disc)? ),* }

        impl Modeled for $name {
            fn schema() -> Schema {
                Schema::Enum(vec![ $( $json ),* ])
            }
            fn dump(&self) -> M {
                let all = [ $( $name::$v ),* ];
                M::Variant(all.iter().position(|v| v == self).unwrap())
            }
            fn gen(r: &mut Rng, _: usize) -> Self {
                *r.pick(&[ $( $name::$v ),* ])
            }
        }
    };
}

strukt!(Empty {});
strukt!(One { a / "a": u8 });
strukt!(Opts { a / "a": Option<u8>, b / "b": Option<Vec<u8>>, c / "c": Option<Option<bool>>, d / "d": Option<Box<One>> });
strukt!(Mixed {
    id / "id": u64,
    name / "name": String,
    tags / "tags": Vec<String>,
    ratio / "ratio": f64,
    small / "small": i8,
    flag / "flag": bool,
    nothing / "nothing": (),
    map / "map": BTreeMap<String, u8>,
    pair / "pair": (i32, Option<String>),
    arr / "arr": [u16; 3],
    kind / "kind": Kind,
    boxed / "boxed": Box<i16>,
});
strukt!(Renamed {
    #[serde(rename = "")] a / "": u8,
    #[serde(rename = "a")] b / "a": Option<u8>,
    #[serde(rename = "b c")] c / "b c": i8,
    #[serde(rename = "line\nbreak \"quoted\" \\")] d / "line\nbreak \"quoted\" \\": bool,
    #[serde(rename = "ünïcödé😀")] e / "ünïcödé😀": u16,
    #[serde(rename = "b")] f / "b": String,
    #[serde(rename = "\u{0}")] g / "\u{0}": Option<String>,
    #[serde(rename = "r#type")] h / "r#type": u8,
});
strukt!(Keywords {
    r#type / "type": u8,
    r#fn / "fn": Option<String>,
    r#match / "match": bool,
    r#loop / "loop": i64,
    #[serde(rename = "r#async")] r#async / "r#async": (),
});
strukt!(Prefixes {
    a / "a": u8, aa / "aa": u8, aaa / "aaa": u8, ab / "ab": u8, b / "b": u8, ba / "ba": u8, _a / "_a": u8, A / "A": u8,
});
strukt!(Swapped {
    #[serde(rename = "y")] x / "y": u8,
    #[serde(rename = "x")] y / "x": u8,
});
strukt!(Tree { v / "v": i32, kids / "kids": Vec<Tree> });
strukt!(List { v / "v": u8, next / "next": Option<Box<List>> });
strukt!(MapRec { m / "m": BTreeMap<String, MapRec>, t / "t": Option<String> });
strukt!(PairRec { p / "p": Option<Box<(PairRec, PairRec)>> });
strukt!(ArrRec { a / "a": Vec<[Option<Box<ArrRec>>; 2]> });
strukt!(Generic<T, U> { t / "t": T, u / "u": Vec<U>, both / "both": (Option<T>, Option<U>) });
strukt!(Wrapper<T> { #[serde(rename = "inner")] t / "inner": T });
strukt!(Holder { v / "v": Value, o / "o": Option<Value>, a / "a": Array, m / "m": Object, n / "n": Number });
strukt!(Big {
    f00 / "f00": u8, f01 / "f01": Option<i8>, f02 / "f02": String, f03 / "f03": bool, f04 / "f04": Vec<u8>,
    f05 / "f05": u8, f06 / "f06": Option<i8>, f07 / "f07": String, f08 / "f08": bool, f09 / "f09": Vec<u8>,
    f10 / "f10": u8, f11 / "f11": Option<i8>, f12 / "f12": String, f13 / "f13": bool, f14 / "f14": Vec<u8>,
    f15 / "f15": u8, f16 / "f16": Option<i8>, f17 / "f17": String, f18 / "f18": bool, f19 / "f19": Vec<u8>,
    f20 / "f20": u8, f21 / "f21": Option<i8>, f22 / "f22": String, f23 / "f23": bool, f24 / "f24": Vec<u8>,
    f25 / "f25": u8, f26 / "f26": Option<i8>, f27 / "f27": String, f28 / "f28": bool, f29 / "f29": Vec<u8>,
    f30 / "f30": u8, f31 / "f31": Option<i8>, f32 / "f32": String, f33 / "f33": bool, f34 / "f34": Vec<u8>,
    f35 / "f35": u8, f36 / "f36": Option<i8>, f37 / "f37": String, f38 / "f38": bool, f39 / "f39": Vec<u8>,
});

unit_enum!(Kind { Alpha / "Alpha", #[serde(rename = "beta")] Beta / "beta", Gamma = 7 / "Gamma", #[serde(rename = "")] Empty / "" });
unit_enum!(Single { Only / "Only" });
unit_enum!(
    #[repr(i16)]
    Tagged { Zero = 300 / "Zero", r#Raw = -5 / "Raw", #[serde(rename = "One")] Two / "One", #[serde(rename = "Two")] One / "Two", ünï / "ünï" }
);

#[derive(Clone, Copy, Default)]
pub struct Fixed;
pub struct FixedHasher(u64);
impl BuildHasher for Fixed {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(99)
    }
}
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        // few distinct values: collisions
        self.0 % 13
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
}

#[derive(Clone)]
pub struct Entry {
    pub name: &'static str,
    pub schema: fn() -> Schema,
    pub parse: fn(&str) -> Result<M, miniserde::Error>,
    /// Only success; the result is dropped.
    pub accepts: fn(&str) -> bool,
    /// Parse and write again.
    pub rewrite: fn(&str) -> Option<String>,
    /// A generated value: what it holds and its text.
    pub make: fn(&mut Rng, usize) -> (M, String),
    /// Direct calls on its visitors and streams, in any order.
    #[cfg(feature = "all")]
    pub drive: fn(&mut Rng, usize),
    #[cfg(feature = "all")]
    pub stream: fn(&mut Rng, usize),
}

fn entry<T: Modeled>(name: &'static str) -> Entry {
    Entry {
        name,
        schema: T::schema,
        parse: |s| json::from_str::<T>(s).map(|t| t.dump()),
        accepts: |s| json::from_str::<T>(s).is_ok(),
        rewrite: |s| json::from_str::<T>(s).ok().map(|t| json::to_string(&t)),
        make: |r, d| {
            let t = T::gen(r, d);
            let m = t.dump();
            (m, json::to_string(&t))
        },
        #[cfg(feature = "all")]
        drive: crate::c10::drive_type::<T>,
        #[cfg(feature = "all")]
        stream: crate::c10::stream_type::<T>,
    }
}

macro_rules! zoo {
    ($($t:ty),* $(,)?) => {
        pub fn zoo() -> Vec<Entry> {
            #[allow(unused_mut)]
            let mut all = vec![ $( entry::<$t>(stringify!($t)) ),* ];
            #[cfg(feature = "std")]
            hash_maps(&mut all);
            all
        }
    };
}

#[cfg(feature = "std")]
fn hash_maps(all: &mut Vec<Entry>) {
    macro_rules! more {
        ($($t:ty),* $(,)?) => { $( all.push(entry::<$t>(stringify!($t))); )* };
    }
    more!(
        HashMap<String, u8>, HashMap<i8, Vec<u8>>, HashMap<char, (), Fixed>, HashMap<String, Option<u8>, Fixed>, HashMap<Word, One>, HashMap<u64, HashMap<bool, u8>>,
    );
}

zoo!(
    (), bool, String, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64,
    Option<u8>, Option<Option<bool>>, Option<String>, Option<()>, Option<Vec<Option<u8>>>, Option<(u8, u8)>, Option<[u8; 2]>,
    Option<BTreeMap<String, u8>>, Option<One>, Option<Opts>, Option<Kind>, Option<f64>,
    Box<u8>, Box<String>, Box<Option<f64>>, Option<Box<i32>>, Box<Box<Vec<u8>>>, Box<[u8; 2]>, Box<BTreeMap<String, Box<u8>>>, Box<()>, Box<bool>,
    Box<(Box<u8>, Box<String>)>, Box<One>, Box<Kind>, Box<Value>, Box<Option<Box<Option<u8>>>>, Box<i64>, Box<f32>, Box<Tree>,
    Vec<u8>, Vec<Vec<i16>>, Vec<Option<String>>, Vec<()>, Vec<bool>, Vec<f64>, Vec<Box<One>>, Vec<Kind>, Vec<Value>, Vec<(u8, String)>, Vec<[u8; 1]>,
    Vec<BTreeMap<String, u8>>, Vec<Box<Vec<Box<u8>>>>, Vec<Empty>, Vec<Option<Vec<Option<u8>>>>,
    [u8; 0], [u8; 1], [String; 3], [[i8; 2]; 2], [Option<u8>; 4], [Vec<u8>; 2], [bool; 33], [(); 5], [(u8, String); 2], [One; 2], [Box<u8>; 3], [Value; 2],
    (u8, String), (Vec<u8>, (bool, ())), (Option<u8>, Option<u8>), ((u8, u8), (u8, u8)), (Box<u8>, [u8; 2]), (Value, Value), (One, Kind),
    (Option<Vec<u8>>, Option<String>),
    BTreeMap<String, BTreeMap<u8, String>>, BTreeMap<bool, Option<u8>>, BTreeMap<char, (u8, u8)>, BTreeMap<i64, [u8; 2]>, BTreeMap<Word, Vec<Word2>>,
    BTreeMap<String, Value>, BTreeMap<String, Kind>, BTreeMap<i32, Box<One>>, BTreeMap<String, ()>,
    Value, Array, Object, Number, Option<Value>, Option<Number>,
    Empty, One, Opts, Mixed, Renamed, Keywords, Prefixes, Swapped, Tree, List, MapRec, PairRec, ArrRec, Holder, Big,
    Generic<u8, String>, Generic<Option<bool>, Vec<i8>>, Generic<One, Kind>, Wrapper<u8>, Wrapper<Option<u8>>, Wrapper<Wrapper<Vec<u8>>>, Wrapper<Box<Option<u8>>>,
    Wrapper<Value>, Kind, Single, Tagged,
);

strukt!(Word2 { w / "w": Option<char_string::Ch> });

/// A user type with hand-written impls: a one-character string.
pub mod char_string {
    use super::*;
    use miniserde::de::Visitor;
    use miniserde::ser::Fragment;
    use miniserde::{make_place, Error, Result};

    pub struct Ch(pub String);

    make_place!(Place);

    impl Visitor for Place<Ch> {
        fn string(&mut self, s: &str) -> Result<()> {
            self.out = Some(Ch(s.to_owned()));
            Ok(())
        }
        fn nonnegative(&mut self, _: u64) -> Result<()> {
            Err(Error)
        }
    }

    impl Deserialize for Ch {
        fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
            Place::new(out)
        }
    }

    impl Serialize for Ch {
        fn begin(&self) -> Fragment {
            self.0.begin()
        }
    }

    impl Modeled for Ch {
        fn schema() -> Schema {
            Schema::Str
        }
        fn dump(&self) -> M {
            M::Str(self.0.clone())
        }
        fn gen(r: &mut Rng, _: usize) -> Self {
            Ch(crate::gen::gen_char(r).to_string())
        }
    }
}
