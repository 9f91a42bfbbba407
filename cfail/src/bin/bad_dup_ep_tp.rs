//! generated by gen.py; must not compile: an endpoint request and an incoming topic with identical keys
#![allow(dead_code)]
use postcard_rpc::header::{VarHeader, VarSeq};
use postcard_rpc::server::Sender;
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
use witness::{w_spawn, Ctx, WSpawn, WTx};
fn eh8(_c: &mut Ctx, _h: VarHeader, _b: u8) -> u16 { 0 }
fn eh32(_c: &mut Ctx, _h: VarHeader, _b: u8) -> u32 { 0 }
async fn eha(_c: &mut Ctx, _h: VarHeader, _b: u8) -> u16 { 0 }
async fn ehs(_c: witness::SpCtx, _h: VarHeader, _b: u8, _s: Sender<WTx>) {}
fn th(_c: &mut Ctx, _h: VarHeader, _b: i8, _s: &Sender<WTx>) {}
async fn tha(_c: &mut Ctx, _h: VarHeader, _b: i8, _s: &Sender<WTx>) {}
async fn ths(_c: witness::SpCtx, _h: VarHeader, _b: i8, _s: Sender<WTx>) {}
endpoints! {
    list = XEPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | --- | --- | --- | --- |
    | X1 | u8 | u16 | "c/x1" |
    | R1 | u8 | u32 | "c/e1" |
}
topics! {
    list = XTPS;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | --- | --- | --- |
    | Y1 | i8 | "c/y1" |
}
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | --- | --- | --- | --- |
    | E1 | u8 | u16 | "c/e1" |
    | E2 | u8 | u16 | "c/e2" |
    | E3 | u8 | u16 | "c/e3" |
}
topics! {
    list = TI;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | --- | --- | --- |
    | T1 | i8 | "c/t1" |
    | T2 | i8 | "c/t2" |
    | T3 | u8 | "c/e2" |
}
topics! {
    list = TO;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | --- | --- | --- |
    | O1 | i8 | "c/o1" |
    | O2 | i8 | "c/o2" |
}
define_dispatch! {
    app: App;
    spawn_fn: w_spawn;
    tx_impl: WTx;
    spawn_impl: WSpawn;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
        | E1 | blocking | eh8 |
        | E2 | async | eha |
        | E3 | spawn | ehs |
    };
    topics_in: {
        list: TI;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | T1 | blocking | th |
        | T2 | spawn | ths |
    };
    topics_out: {
        list: TO;
    };
}
fn main() {
    let _: fn(Ctx, WSpawn) -> App = App::new;
}
