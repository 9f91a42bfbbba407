//! Declarations whose compile-time values are compared with independently derived ones.
#![allow(unexpected_cfgs, dead_code)]
use witness::*;
use postcard_rpc::{endpoints, topics, Endpoint, Topic, TopicDirection};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use postcard_rpc::standard_icd::*;
use postcard_rpc::{endpoint, merge_unique_types, topic, unique_types, Key, Key1, Key2, Key4};
use postcard_schema::schema::NamedType;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ keys
macro_rules! ep_consts {
    ($($m:ident: $ep:ty, $req:ty, $resp:ty, $path:literal;)*) => {$(
        pub mod $m {
            use super::*;
            pub const PATH: (&str, &str) = (<$ep as Endpoint>::PATH, $path);
            pub const KEYS: [Key; 2] = [<$ep as Endpoint>::REQ_KEY, <$ep as Endpoint>::RESP_KEY];
            pub const WANT: [Key; 2] = [Key::for_path::<$req>($path), Key::for_path::<$resp>($path)];
            pub const K4: [Key4; 2] = [<$ep as Endpoint>::REQ_KEY4, <$ep as Endpoint>::RESP_KEY4];
            pub const K2: [Key2; 2] = [<$ep as Endpoint>::REQ_KEY2, <$ep as Endpoint>::RESP_KEY2];
            pub const K1: [Key1; 2] = [<$ep as Endpoint>::REQ_KEY1, <$ep as Endpoint>::RESP_KEY1];
            pub const TYS: [&NamedType; 2] = [<<$ep as Endpoint>::Request as Schema>::SCHEMA, <<$ep as Endpoint>::Response as Schema>::SCHEMA];
            pub const WANT_TYS: [&NamedType; 2] = [<$req as Schema>::SCHEMA, <$resp as Schema>::SCHEMA];
        }
    )*};
}
macro_rules! tp_consts {
    ($($m:ident: $tp:ty, $msg:ty, $path:literal;)*) => {$(
        pub mod $m {
            use super::*;
            pub const PATH: (&str, &str) = (<$tp as Topic>::PATH, $path);
            pub const KEYS: [Key; 1] = [<$tp as Topic>::TOPIC_KEY];
            pub const WANT: [Key; 1] = [Key::for_path::<$msg>($path)];
            pub const K4: [Key4; 1] = [<$tp as Topic>::TOPIC_KEY4];
            pub const K2: [Key2; 1] = [<$tp as Topic>::TOPIC_KEY2];
            pub const K1: [Key1; 1] = [<$tp as Topic>::TOPIC_KEY1];
            pub const TYS: [&NamedType; 1] = [<<$tp as Topic>::Message as Schema>::SCHEMA];
            pub const WANT_TYS: [&NamedType; 1] = [<$msg as Schema>::SCHEMA];
        }
    )*};
}

#[derive(Serialize, Deserialize, Schema)]
pub struct BReq<'a>(pub &'a str, pub u8);
#[derive(Serialize, Deserialize, Schema)]
pub struct BResp<'a>(pub &'a str, pub u16);

endpoint!(OneEp, BlkReq, BlkResp, "x/one");
endpoint!(NamedEp, AsyReq, SpnResp);
topic!(OneTp, TpBlkMsg, "x/tone");
topic!(NamedTp, TpAsyMsg);
endpoints! {
    list = LEPS;
    | EndpointTy | RequestTy  | ResponseTy | Path    |
    | ---------- | ---------  | ---------- | ----    |
    | LReqEp     | BReq<'a>   | BlkResp    | "x/lrq" |
    | LRespEp    | BlkReq     | BResp<'b>  | "x/lrs" |
    | LBothEp    | BReq<'a>   | BResp<'b>  | "x/lbo" |
}
endpoints! {
    list = OEPS;
    omit_std = true;
    | EndpointTy | RequestTy  | ResponseTy | Path    | Cfg              |
    | ---------- | ---------  | ---------- | ----    | ---              |
    | OmEp       | BlkReq     | BlkResp    | "x/om"  |                  |
    | OmCfgEp    | AsyReq     | AsyResp    | "x/omc" | cfg(not(nope_q)) |
    | OmNoEp     | AsyReq     | AsyResp    | "x/omn" | cfg(nope_q)      |
}
topics! {
    list = LTPS;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path    |
    | ------- | --------- | ----    |
    | LTp     | BReq<'a>  | "x/ltp" |
    | L2Tp    | TpBlkMsg  | "x/lt2" |
}
topics! {
    list = OTPS;
    direction = TopicDirection::ToServer;
    omit_std = true;
    | TopicTy | MessageTy | Path    | Cfg              |
    | ------- | --------- | ----    | ---              |
    | OmTp    | TpBlkMsg  | "x/ot"  |                  |
    | OmCfgTp | TpAsyMsg  | "x/otc" | cfg(not(nope_q)) |
    | OmNoTp  | TpAsyMsg  | "x/otn" | cfg(nope_q)      |
}
pub const C_EPS: &postcard_rpc::EndpointMap = &EPS;
pub const C_LEPS: &postcard_rpc::EndpointMap = &LEPS;
pub const C_OEPS: &postcard_rpc::EndpointMap = &OEPS;
pub const C_TPS_IN: &postcard_rpc::TopicMap = &TPS_IN;
pub const C_TPS_OUT: &postcard_rpc::TopicMap = &TPS_OUT;
pub const C_LTPS: &postcard_rpc::TopicMap = &LTPS;
pub const C_OTPS: &postcard_rpc::TopicMap = &OTPS;

ep_consts! {
    ep_ping: PingEndpoint, u32, u32, "postcard-rpc/ping";
    ep_schemas: GetAllSchemasEndpoint, (), SchemaTotals, "postcard-rpc/schemas/get";
    ep_blk: BlkEp, BlkReq, BlkResp, "w/blk";
    ep_asy: AsyEp, AsyReq, AsyResp, "w/asy";
    ep_spn: SpnEp, SpnReq, SpnResp, "w/spn";
    ep_un1: Un1Ep, BlkReq, Inner, "w/un1";
    ep_one: OneEp, BlkReq, BlkResp, "x/one";
    ep_named: NamedEp, AsyReq, SpnResp, "NamedEp";
    ep_lreq: LReqEp<'static>, BReq<'static>, BlkResp, "x/lrq";
    ep_lresp: LRespEp<'static>, BlkReq, BResp<'static>, "x/lrs";
    ep_lboth: LBothEp<'static, 'static>, BReq<'static>, BResp<'static>, "x/lbo";
    ep_om: OmEp, BlkReq, BlkResp, "x/om";
    ep_omc: OmCfgEp, AsyReq, AsyResp, "x/omc";
}
tp_consts! {
    tp_data: GetAllSchemaDataTopic, OwnedSchemaData, "postcard-rpc/schema/data";
    tp_log: LoggingTopic, String, "postcard-rpc/logging";
    tp_blk: TpBlk, TpBlkMsg, "w/tblk";
    tp_asy: TpAsy, TpAsyMsg, "w/tasy";
    tp_spn: TpSpn, TpSpnMsg, "w/tspn";
    tp_out: TpOut, TpOutMsg, "w/tout";
    tp_one: OneTp, TpBlkMsg, "x/tone";
    tp_named: NamedTp, TpAsyMsg, "NamedTp";
    tp_l: LTp<'static>, BReq<'static>, "x/ltp";
    tp_l2: L2Tp, TpBlkMsg, "x/lt2";
    tp_om: OmTp, TpBlkMsg, "x/ot";
    tp_omc: OmCfgTp, TpAsyMsg, "x/otc";
}
pub const ERR: [Key; 2] = [ERROR_KEY, Key::for_path::<WireError>("error")];
pub const DATA_TY: &NamedType = <OwnedSchemaData as Schema>::SCHEMA;
pub const TOTALS_TY: &NamedType = <SchemaTotals as Schema>::SCHEMA;
pub const ERR_TY: &NamedType = <WireError as Schema>::SCHEMA;
pub const LOG_TY: &NamedType = <<LoggingTopic as Topic>::Message as Schema>::SCHEMA;

// ------------------------------------------------------------------ type lists
#[derive(Schema)]
pub struct Leaf {
    pub a: u8,
}
#[derive(Schema)]
pub struct Leaf2 {
    pub a: u8,
}
#[derive(Schema)]
pub struct UnitS;
#[derive(Schema)]
pub struct Nt<T>(pub T);
#[derive(Schema)]
pub struct Ts<A, B, C>(pub A, pub B, pub C);
#[derive(Schema)]
pub struct St<A, B, C> {
    pub x: A,
    pub y: B,
    pub z: C,
}
#[derive(Schema)]
pub enum En<A, B, C, D, E> {
    U,
    N(A),
    T(B, C),
    S { p: D, q: E },
}
#[derive(Schema)]
pub enum Alone<A> {
    N(A),
}
#[derive(Schema)]
pub enum Plain {
    A,
    B,
}
mod other {
    use postcard_schema::Schema;
    /// same name, other contents
    #[derive(Schema)]
    pub struct Leaf {
        pub a: u16,
    }
    /// same contents, other field name
    pub mod third {
        use postcard_schema::Schema;
        #[derive(Schema)]
        pub struct Leaf {
            pub b: u8,
        }
    }
}
macro_rules! uniq {
    ($($m:ident: $t:ty;)*) => {$(
        pub mod $m {
            use super::*;
            pub const GOT: &[&NamedType] = unique_types!($t);
            pub const OF: [&NamedType; 1] = [<$t as Schema>::SCHEMA];
        }
    )*};
}
macro_rules! merged {
    ($($m:ident: $($t:ty),+;)*) => {$(
        pub mod $m {
            use super::*;
            pub const GOT: &[&NamedType] = merge_unique_types![$($t,)+];
            pub const OF: &[&NamedType] = &[$(<$t as Schema>::SCHEMA),+];
        }
    )*};
}
/// every position a type can be nested at, around the given type
macro_rules! places {
    ($($m:ident: $t:ty;)*) => {$(
        pub mod $m {
            use super::*;
            uniq! {
                u_itself: $t;
                u_option: Option<$t>;
                u_newtype: Nt<$t>;
                u_seq: Vec<$t>;
                u_tuple1: ($t,);
                u_tuple_first: ($t, u8, u16);
                u_tuple_mid: (u8, $t, u16);
                u_tuple_last: (u8, u16, $t);
                u_array: [$t; 2];
                u_ts_first: Ts<$t, u8, u16>;
                u_ts_mid: Ts<u8, $t, u16>;
                u_ts_last: Ts<u8, u16, $t>;
                u_map_key: BTreeMap<$t, u8>;
                u_map_val: BTreeMap<u8, $t>;
                u_st_first: St<$t, u8, u16>;
                u_st_mid: St<u8, $t, u16>;
                u_st_last: St<u8, u16, $t>;
                u_en_new: En<$t, u8, u8, u8, u8>;
                u_en_tup_first: En<u8, $t, u8, u8, u8>;
                u_en_tup_last: En<u8, u8, $t, u8, u8>;
                u_en_st_first: En<u8, u8, u8, $t, u8>;
                u_en_st_last: En<u8, u8, u8, u8, $t>;
                u_alone: Alone<$t>;
                u_result: Result<$t, u8>;
                u_result_err: Result<u8, $t>;
            }
        }
    )*};
}
pub mod tys {
    use super::*;
    places! {
        prim: u32;
        leaf: Leaf;
        unit: UnitS;
        plain: Plain;
        option: Option<Leaf>;
        newtype: Nt<Leaf>;
        seq: Vec<Leaf>;
        tuple: (u8, Leaf);
        tuplestruct: Ts<u8, Leaf, UnitS>;
        map: BTreeMap<Leaf, UnitS>;
        strukt: St<UnitS, Leaf, u8>;
        en: En<Leaf, UnitS, Plain, Leaf2, Nt<u8>>;
        alone: Alone<Leaf>;
        deep: Nt<Option<Alone<Vec<Leaf>>>>;
    }
    uniq! {
        u_names: (Leaf, Leaf2, Leaf);
        u_same_name: (Leaf, other::Leaf, other::third::Leaf);
        u_same_name_map: BTreeMap<Leaf, other::Leaf>;
        u_en_all: En<Leaf, other::Leaf, Leaf2, UnitS, Plain>;
        u_en_dup: En<Leaf, Leaf, Leaf, Leaf, Leaf>;
        u_alone_pair: (Alone<Leaf>, Alone<Leaf2>);
        u_alone_pair2: (Alone<Alone<Leaf>>, Alone<Alone<Leaf2>>);
        u_option_pair: (Option<u8>, Option<u16>, Option<Leaf>);
        u_vec_pair: (Vec<u8>, Vec<u16>, Vec<Vec<u8>>);
        u_tup_pair: ((u8, u16), (u16, u8), (u8, u16, u32));
        u_map_pair: (BTreeMap<u8, u16>, BTreeMap<u16, u8>, BTreeMap<u8, u8>);
        u_st_pair: (St<u8, u16, u32>, St<u8, u32, u16>, St<u16, u8, u32>);
        u_ts_pair: (Ts<u8, u16, u32>, Ts<u8, u32, u16>, Ts<u16, u8, u32>);
        u_en_pair: (En<u8, u8, u8, u8, u8>, En<u16, u8, u8, u8, u8>, En<u8, u8, u16, u8, u8>, En<u8, u8, u8, u8, u16>, En<u8, u16, u8, u8, u8>, En<u8, u8, u8, u16, u8>);
        u_nt_pair: (Nt<u8>, Nt<u16>);
        u_prims: (bool, (i8, u8, i16, i32), (i64, i128, u16, u32), (u64, u128, f32, f64), (char, String, ()));
    }
    merged! {
        m_two: Leaf, Leaf2;
        m_same: Leaf, Leaf, Nt<Leaf>;
        m_last: u8, UnitS, Leaf, En<u8, Leaf2, Plain, u8, Nt<Plain>>;
        m_over: (Leaf, UnitS), (UnitS, Leaf), (Leaf, Leaf2);
        m_names: Leaf, other::Leaf, other::third::Leaf;
    }
}
pub mod big {
    use super::*;
    #[derive(Schema)]
    pub struct B00 {
        pub f0: u8,
    }
    #[derive(Schema)]
    pub struct B01 {
        pub f1: u8,
    }
    #[derive(Schema)]
    pub struct B02 {
        pub f2: u8,
    }
    #[derive(Schema)]
    pub struct B03 {
        pub f3: u8,
    }
    #[derive(Schema)]
    pub struct B04 {
        pub f4: u8,
    }
    #[derive(Schema)]
    pub struct B05 {
        pub f5: u8,
    }
    #[derive(Schema)]
    pub struct B06 {
        pub f6: u8,
    }
    #[derive(Schema)]
    pub struct B07 {
        pub f7: u8,
    }
    #[derive(Schema)]
    pub struct B08 {
        pub f8: u8,
    }
    #[derive(Schema)]
    pub struct B09 {
        pub f9: u8,
    }
    #[derive(Schema)]
    pub struct B10 {
        pub f10: u8,
    }
    #[derive(Schema)]
    pub struct B11 {
        pub f11: u8,
    }
    #[derive(Schema)]
    pub struct B12 {
        pub f12: u8,
    }
    #[derive(Schema)]
    pub struct B13 {
        pub f13: u8,
    }
    #[derive(Schema)]
    pub struct B14 {
        pub f14: u8,
    }
    #[derive(Schema)]
    pub struct B15 {
        pub f15: u8,
    }
    #[derive(Schema)]
    pub struct B16 {
        pub f16: u8,
    }
    #[derive(Schema)]
    pub struct B17 {
        pub f17: u8,
    }
    #[derive(Schema)]
    pub struct B18 {
        pub f18: u8,
    }
    #[derive(Schema)]
    pub struct B19 {
        pub f19: u8,
    }
    #[derive(Schema)]
    pub struct B20 {
        pub f20: u8,
    }
    #[derive(Schema)]
    pub struct B21 {
        pub f21: u8,
    }
    #[derive(Schema)]
    pub struct B22 {
        pub f22: u8,
    }
    #[derive(Schema)]
    pub struct B23 {
        pub f23: u8,
    }
    #[derive(Schema)]
    pub struct Wide {
        pub m0: B00,
        pub m1: B01,
        pub m2: B02,
        pub m3: B03,
        pub m4: B04,
        pub m5: B05,
        pub m6: B06,
        pub m7: B07,
        pub m8: B08,
        pub m9: B09,
        pub m10: B10,
        pub m11: B11,
        pub m12: B12,
        pub m13: B13,
        pub m14: B14,
        pub m15: B15,
        pub m16: B16,
        pub m17: B17,
        pub m18: B18,
        pub m19: B19,
        pub m20: B20,
        pub m21: B21,
        pub m22: B22,
        pub m23: B23,
    }
    #[derive(Schema)]
    pub struct WideT(pub Option<B00>, pub Option<B01>, pub Option<B02>, pub Option<B03>, pub Option<B04>, pub Option<B05>, pub Option<B06>, pub Option<B07>, pub Option<B08>, pub Option<B09>, pub Option<B10>, pub Option<B11>, pub Option<B12>, pub Option<B13>, pub Option<B14>, pub Option<B15>, pub Option<B16>, pub Option<B17>, pub Option<B18>, pub Option<B19>, pub Option<B20>, pub Option<B21>, pub Option<B22>, pub Option<B23>);
    #[derive(Schema)]
    pub enum WideE {
        V0(Vec<B00>),
        V1(u8, B01),
        V2 { a: u8, b: B02 },
        V3(B03, u8, u16),
        V4(Vec<B04>),
        V5(u8, B05),
        V6 { a: u8, b: B06 },
        V7(B07, u8, u16),
        V8(Vec<B08>),
        V9(u8, B09),
        V10 { a: u8, b: B10 },
        V11(B11, u8, u16),
        V12(Vec<B12>),
        V13(u8, B13),
        V14 { a: u8, b: B14 },
        V15(B15, u8, u16),
        V16(Vec<B16>),
        V17(u8, B17),
        V18 { a: u8, b: B18 },
        V19(B19, u8, u16),
        V20(Vec<B20>),
        V21(u8, B21),
        V22 { a: u8, b: B22 },
        V23(B23, u8, u16),
    }
    uniq! {
        u_wide: Wide;
        u_wide_t: WideT;
        u_wide_e: WideE;
        u_wide_all: (Wide, WideT, WideE);
        u_arr: [Leaf; 32];
    }
    merged! {
        m_wide: B00, B01, B02, B03, B04, B05, B06, B07, B08, B09, B10, B11, B12, B13, B14, B15, B16, B17, B18, B19, B20, B21, B22, B23, Wide, WideE;
    }
}
pub mod eqm;
