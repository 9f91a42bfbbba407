//! Witness programs: users of the public macros, one handler of every flavour,
//! analysed (never executed) together with the library.
#![allow(dead_code)]

use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeq};
use postcard_rpc::server::{
    AsWireTxErrorKind, Sender, SpawnContext, WireSpawn, WireTx, WireTxErrorKind,
};
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Schema)]
pub struct Inner(pub u8);
#[derive(Serialize, Deserialize, Schema)]
pub struct BlkReq(pub u8);
#[derive(Serialize, Deserialize, Schema)]
pub struct BlkResp(pub Inner);
#[derive(Serialize, Deserialize, Schema)]
pub struct AsyReq(pub u16);
#[derive(Serialize, Deserialize, Schema)]
pub struct AsyResp(pub u16);
#[derive(Serialize, Deserialize, Schema)]
pub struct SpnReq(pub u32);
#[derive(Serialize, Deserialize, Schema)]
pub struct SpnResp(pub u32);
#[derive(Serialize, Deserialize, Schema)]
pub struct TpBlkMsg(pub i8);
#[derive(Serialize, Deserialize, Schema)]
pub struct TpAsyMsg(pub i16);
#[derive(Serialize, Deserialize, Schema)]
pub struct TpSpnMsg(pub i32);
#[derive(Serialize, Deserialize, Schema)]
pub struct TpOutMsg(pub i64);

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path   |
    | ---------- | --------- | ---------- | ----   |
    | BlkEp      | BlkReq    | BlkResp    | "w/blk" |
    | AsyEp      | AsyReq    | AsyResp    | "w/asy" |
    | SpnEp      | SpnReq    | SpnResp    | "w/spn" |
    | Un1Ep      | BlkReq    | Inner      | "w/un1" |
}

topics! {
    list = TPS_IN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | TpBlk   | TpBlkMsg  | "w/tblk" |
    | TpAsy   | TpAsyMsg  | "w/tasy" |
    | TpSpn   | TpSpnMsg  | "w/tspn" |
}

topics! {
    list = TPS_OUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | TpOut   | TpOutMsg  | "w/tout" |
}

pub struct WErr;
impl AsWireTxErrorKind for WErr {
    fn as_kind(&self) -> WireTxErrorKind {
        WireTxErrorKind::Other
    }
}

#[derive(Clone)]
pub struct WTx;
impl WireTx for WTx {
    type Error = WErr;
    async fn send<T: Serialize + ?Sized>(&self, _h: VarHeader, _m: &T) -> Result<(), WErr> {
        Err(WErr)
    }
    async fn send_raw(&self, _b: &[u8]) -> Result<(), WErr> {
        Err(WErr)
    }
    async fn send_log_str(&self, _k: VarKeyKind, _s: &str) -> Result<(), WErr> {
        Err(WErr)
    }
    async fn send_log_fmt<'a>(&self, _k: VarKeyKind, _a: core::fmt::Arguments<'a>) -> Result<(), WErr> {
        Err(WErr)
    }
}

#[derive(Clone)]
pub struct WSpawn;
impl WireSpawn for WSpawn {
    type Error = WErr;
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}

pub fn w_spawn<F>(_s: &WSpawn, _f: F) -> Result<(), WErr> {
    Err(WErr)
}

pub struct Ctx(pub u32);
pub struct SpCtx(pub u32);
impl SpawnContext for Ctx {
    type SpawnCtxt = SpCtx;
    fn spawn_ctxt(&mut self) -> SpCtx {
        SpCtx(self.0)
    }
}

pub fn h_blk(_c: &mut Ctx, _h: VarHeader, r: BlkReq) -> BlkResp {
    BlkResp(Inner(r.0))
}
pub async fn h_asy(_c: &mut Ctx, _h: VarHeader, r: AsyReq) -> AsyResp {
    AsyResp(r.0)
}
pub async fn h_spn(_c: SpCtx, _h: VarHeader, _r: SpnReq, _s: Sender<WTx>) {}
pub fn h_tblk(_c: &mut Ctx, _h: VarHeader, _m: TpBlkMsg, _s: &Sender<WTx>) {}
pub async fn h_tasy(_c: &mut Ctx, _h: VarHeader, _m: TpAsyMsg, _s: &Sender<WTx>) {}
pub async fn h_tspn(_c: SpCtx, _h: VarHeader, _m: TpSpnMsg, _s: Sender<WTx>) {}

define_dispatch! {
    app: WApp;
    spawn_fn: w_spawn;
    tx_impl: WTx;
    spawn_impl: WSpawn;
    context: Ctx;

    endpoints: {
        list: EPS;

        | EndpointTy | kind     | handler |
        | ---------- | ----     | ------- |
        | BlkEp      | blocking | h_blk   |
        | AsyEp      | async    | h_asy   |
        | SpnEp      | spawn    | h_spn   |
    };
    topics_in: {
        list: TPS_IN;

        | TopicTy | kind     | handler |
        | ------- | ----     | ------- |
        | TpBlk   | blocking | h_tblk  |
        | TpAsy   | async    | h_tasy  |
        | TpSpn   | spawn    | h_tspn  |
    };
    topics_out: {
        list: TPS_OUT;
    };
}

/// Key constants of every message the witness dispatcher knows, by name.
pub mod keys {
    use super::*;
    use postcard_rpc::standard_icd::{GetAllSchemasEndpoint, PingEndpoint};
    use postcard_rpc::{Key, Key1, Key2, Key4};
    macro_rules! ep {
        ($($f:ident $t:ty;)*) => { $(pub fn $f() -> (Key1, Key2, Key4, Key) {
            (<$t as Endpoint>::REQ_KEY1, <$t as Endpoint>::REQ_KEY2, <$t as Endpoint>::REQ_KEY4, <$t as Endpoint>::REQ_KEY)
        })* }
    }
    macro_rules! tp {
        ($($f:ident $t:ty;)*) => { $(pub fn $f() -> (Key1, Key2, Key4, Key) {
            (<$t as Topic>::TOPIC_KEY1, <$t as Topic>::TOPIC_KEY2, <$t as Topic>::TOPIC_KEY4, <$t as Topic>::TOPIC_KEY)
        })* }
    }
    ep! { k_ping PingEndpoint; k_schemas GetAllSchemasEndpoint; k_blk BlkEp; k_asy AsyEp; k_spn SpnEp; k_un1 Un1Ep; }
    tp! { k_tblk TpBlk; k_tasy TpAsy; k_tspn TpSpn; k_tout TpOut; }
    pub fn k_error() -> (Key1, Key2, Key4, Key) {
        const K: Key = postcard_rpc::standard_icd::ERROR_KEY;
        const K1: Key1 = Key1::from_key8(K);
        const K2: Key2 = Key2::from_key8(K);
        const K4: Key4 = Key4::from_key8(K);
        (K1, K2, K4, K)
    }
}

pub fn probe(s: VarSeq) -> VarSeq {
    s
}

/// Programs whose incoming or outgoing keys collide at a known width.
macro_rules! width_app {
    ($m:ident; $($ep:ident $path:literal,)*; $($ti:ident $tip:literal,)*; $($to:ident $top:literal,)*) => {
        pub mod $m {
            use super::{w_spawn, Ctx, WSpawn, WTx};
            use postcard_rpc::header::{VarHeader, VarKeyKind};
            use postcard_rpc::server::Dispatch;
            use postcard_rpc::standard_icd::{GetAllSchemaDataTopic, GetAllSchemasEndpoint, LoggingTopic, PingEndpoint};
            use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Key, Topic, TopicDirection};
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                $(| $ep | u8 | u16 | $path |)*
            }
            topics! {
                list = TPS_IN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $ti | i8 | $tip |)*
            }
            topics! {
                list = TPS_OUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                $(| $to | i16 | $top |)*
            }
            define_dispatch! {
                app: App;
                spawn_fn: w_spawn;
                tx_impl: WTx;
                spawn_impl: WSpawn;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                };
                topics_in: {
                    list: TPS_IN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                };
                topics_out: {
                    list: TPS_OUT;
                };
            }
            pub fn width(a: &App) -> VarKeyKind {
                <App as Dispatch>::min_key_len(a)
            }
            pub fn announced(c: Ctx, s: WSpawn) -> VarKeyKind {
                App::new(c, s).device_map.min_key_len
            }
            
            pub fn in_keys() -> impl Sized {
                [PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY $(, $ep::REQ_KEY)* $(, $ti::TOPIC_KEY)*]
            }
            pub fn out_keys() -> impl Sized {
                [PingEndpoint::RESP_KEY, GetAllSchemasEndpoint::RESP_KEY, GetAllSchemaDataTopic::TOPIC_KEY, LoggingTopic::TOPIC_KEY $(, $ep::RESP_KEY)* $(, $to::TOPIC_KEY)*]
            }
        }
    };
}
width_app! { w1; E1 "w1/e0", E2 "w1/e1",; T1 "w1/t",; T2 "w1/o", }
width_app! { in2; E1 "c/e0",; T1 "c/t467",; T2 "c/o", }
width_app! { out2; E1 "d/e0",; T1 "d/t",; T2 "d/t191", }
width_app! { in4; E1 "f/e15", E2 "f/e39",; ; T2 "f/o", }
width_app! { err2; E1 "err/o12",; T1 "err/t",; T2 "err/o", }
width_app! { out8; E1 "g/e14438", E2 "g/e19237",; T1 "g/t",;  }

// ---------------------------------------------------------------- core::fmt
/// What `core::fmt::write` may do to the writer: any number of `write_str` calls,
/// whatever they return (a `Display` impl may ignore errors), then any result.
pub trait FmtScript {
    fn start<W>(w: &W);
    fn more() -> bool;
    fn piece() -> &'static str;
    fn done<W>(w: &W);
    fn outcome() -> core::fmt::Result;
}
pub fn fmt_write_model<S: FmtScript, W: core::fmt::Write>(w: &mut W) -> core::fmt::Result {
    S::start(w);
    while S::more() {
        let _ = w.write_str(S::piece());
    }
    S::done(w);
    S::outcome()
}
pub fn logging_key() -> postcard_rpc::Key {
    <postcard_rpc::standard_icd::LoggingTopic as postcard_rpc::Topic>::TOPIC_KEY
}
