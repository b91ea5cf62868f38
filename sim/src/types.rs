//! Message types of the simulated devices
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Req {
    pub id: u32,
    pub data: Vec<u8>,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub enum Tag {
    Plain,
    Nested(Inner),
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Inner {
    pub a: u16,
    pub b: Option<u8>,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Rsp {
    pub id: u32,
    pub nonce: u32,
    pub tag: Tag,
    pub data: Vec<u8>,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Msg {
    pub id: u32,
    pub data: Vec<u8>,
}
pub type Blob = Vec<u8>;

// A device with every kind of type, most of them only reachable through others
use std::collections::BTreeMap;
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Marker;
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Wrapped(pub Leaf);
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Leaf {
    pub v: i16,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Pair(pub u8, pub PairLeaf);
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct PairLeaf {
    pub z: i64,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InTuple {
    pub c: char,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InMap {
    pub f: f32,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InSeq {
    pub s: String,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InVariant {
    pub q: u128,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InTupVariant {
    pub q: u16,
    pub again: Leaf,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InStructVariant {
    pub m: Option<InOption>,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InOption {
    pub b: bool,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub enum Kinds {
    Nothing,
    One(InVariant),
    Two(u8, InTupVariant),
    Named { a: u32, b: InStructVariant },
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct InKey {
    pub k: u8,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InFirst {
    pub first: u8,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InFirstTup {
    pub ft: u16,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InFirstNamed {
    pub fs: u32,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct InFirstOfTuple {
    pub fot: u32,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub enum FirstNew {
    A(InFirst),
    B,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub enum FirstTup {
    A(InFirstTup, u8),
    B(u8),
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub enum FirstNamed {
    A { x: InFirstNamed, y: u8 },
    B,
}
/// Every primitive, so that telling such types apart takes looking at all of them
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Prims {
    pub a: bool,
    pub b: i8,
    pub c: i16,
    pub d: i32,
    pub e: i64,
    pub f: i128,
    pub g: u8,
    pub h: u16,
    pub i: u32,
    pub j: u64,
    pub k: u128,
    pub l: f32,
    pub m: f64,
    pub n: char,
    pub o: String,
    pub p: (),
    pub q: Marker,
    pub r: postcard_schema::schema::owned::OwnedNamedType,
    pub s: Option<u8>,
    pub t: Vec<u16>,
    pub u: (u8, u16),
    pub v: BTreeMap<u8, u16>,
    pub w: Vec<u8>,
}
pub mod fname1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub one: u8, pub two: u8 }
}
pub mod fname2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub one: u8, pub tow: u8 }
}
pub mod ftype1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub one: u8, pub three: u8 }
}
pub mod ftype2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub one: u8, pub three: i8 }
}
pub mod fcount1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub a: u8 }
}
pub mod fcount2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub a: u8, pub b: u8 }
}
pub mod vname1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { One, Two }
}
pub mod vname2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { One, Tow }
}
pub mod vcount1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { One }
}
pub mod vcount2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { One, Two, Three }
}
pub mod vkind1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { One, Pay(u8) }
}
pub mod vkind2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { One, Pay(u8, u8) }
}
pub mod vnew1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { X(u8) }
}
pub mod vnew2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { X(i8) }
}
pub mod vtup1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { X(u8, u8) }
}
pub mod vtup2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { X(u8, i8) }
}
pub mod vnamed1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { X { a: u8, b: u8 } }
}
pub mod vnamed2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub enum Alike { X { a: u8, c: u8 } }
}
pub mod tup1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike(pub u8, pub u16);
}
pub mod tup2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike(pub u8, pub u32);
}
pub mod tuplen1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike(pub u8, pub u8, pub u8);
}
pub mod tuplen2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike(pub u8, pub u8);
}
pub mod new1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike(pub u8);
}
pub mod new2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike(pub u16);
}
pub mod unit1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike;
}
pub mod unit2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub only: () }
}
pub mod deep1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub o: Option<Vec<(u8, i8)>>, pub m: BTreeMap<u8, u8> }
}
pub mod deep2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub o: Option<Vec<(u8, i8)>>, pub m: BTreeMap<u8, i8> }
}
pub mod deeper1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub o: Option<Vec<(u8, i8)>>, pub z: BTreeMap<u8, u8> }
}
pub mod deeper2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub o: Option<Vec<(u8, u8)>>, pub z: BTreeMap<u8, u8> }
}
pub mod mapkey1 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub mk: BTreeMap<u8, u8> }
}
pub mod mapkey2 {
    use super::*;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Alike { pub mk: BTreeMap<i8, u8> }
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct AlikeA {
    pub fname1: fname1::Alike,
    pub fname2: fname2::Alike,
    pub ftype1: ftype1::Alike,
    pub ftype2: ftype2::Alike,
    pub fcount1: fcount1::Alike,
    pub fcount2: fcount2::Alike,
    pub vname1: vname1::Alike,
    pub vname2: vname2::Alike,
    pub vcount1: vcount1::Alike,
    pub vcount2: vcount2::Alike,
    pub vkind1: vkind1::Alike,
    pub vkind2: vkind2::Alike,
    pub vnew1: vnew1::Alike,
    pub vnew2: vnew2::Alike,
    pub vtup1: vtup1::Alike,
    pub vtup2: vtup2::Alike,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct AlikeB(
    pub vnamed1::Alike,
    pub vnamed2::Alike,
    pub tup1::Alike,
    pub tup2::Alike,
    pub tuplen1::Alike,
    pub tuplen2::Alike,
    pub new1::Alike,
    pub new2::Alike,
    pub unit1::Alike,
    pub unit2::Alike,
    pub deep1::Alike,
    pub deep2::Alike,
    pub deeper1::Alike,
    pub deeper2::Alike,
    pub mapkey1::Alike,
    pub mapkey2::Alike,
);
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct Rich {
    pub m: Marker,
    pub w: Wrapped,
    pub p: Pair,
    pub t: (u8, InTuple),
    pub map: BTreeMap<InKey, InMap>,
    pub ft: (InFirstOfTuple, u8),
    pub seq: Vec<InSeq>,
    pub k: Kinds,
}
#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct RichOut {
    pub arr: [u8; 4],
    pub k: Option<Kinds>,
    pub last: Leaf,
}

#[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
pub struct PrimsOut {
    pub some: Option<Prims>,
    pub same: Vec<Prims>,
    pub fe: Option<(FirstNew, FirstTup, FirstNamed)>,
    pub again: Option<InFirst>,
}
pub type OptB = Option<AlikeB>;
pub type AnySchema = postcard_schema::schema::owned::OwnedNamedType;
