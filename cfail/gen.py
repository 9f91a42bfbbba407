#!/usr/bin/env python3
"""writes src/bin/*.rs: one program per way of declaring handlers; `ok_*` must compile, `bad_*` must not"""
import os
HEAD = """//! generated by gen.py; must %s: %s
#![allow(dead_code)]
use postcard_rpc::header::{VarHeader, VarSeq};
use postcard_rpc::server::Sender;
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
use witness::{w_spawn, Ctx, WSpawn, WTx};
fn eh8(_c: &mut Ctx, _h: VarHeader, _b: u8) -> u16 { 0 }
fn eh32(_c: &mut Ctx, _h: VarHeader, _b: u8) -> u32 { 0 }
async fn eha(_c: &mut Ctx, _h: VarHeader, _b: u8) -> u16 { 0 }
async fn ehs(_c: witness::SpCtx, _h: VarHeader, _b: u8, _s: Sender<WTx>) {}
fn th(_c: &mut Ctx, _h: VarHeader, _b: i8, _s: &Sender<WTx>) {}
async fn tha(_c: &mut Ctx, _h: VarHeader, _b: i8, _s: &Sender<WTx>) {}
async fn ths(_c: witness::SpCtx, _h: VarHeader, _b: i8, _s: Sender<WTx>) {}
"""
def eps(name, rows): return "endpoints! {\n    list = %s;\n    | EndpointTy | RequestTy | ResponseTy | Path |\n    | --- | --- | --- | --- |\n%s}\n" % (name, "".join("    | %s | %s | %s | \"%s\" |\n" % r for r in rows))
def tps(name, d, rows): return "topics! {\n    list = %s;\n    direction = TopicDirection::%s;\n    | TopicTy | MessageTy | Path |\n    | --- | --- | --- |\n%s}\n" % (name, d, "".join("    | %s | %s | \"%s\" |\n" % r for r in rows))
def disp(eh, th): return """define_dispatch! {
    app: App;
    spawn_fn: w_spawn;
    tx_impl: WTx;
    spawn_impl: WSpawn;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
%s    };
    topics_in: {
        list: TI;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
%s    };
    topics_out: {
        list: TO;
    };
}
fn main() {
    let _: fn(Ctx, WSpawn) -> App = App::new;
}
""" % ("".join("        | %s | %s | %s |\n" % r for r in eh), "".join("        | %s | %s | %s |\n" % r for r in th))
E3 = [("E1", "u8", "u16", "c/e1"), ("E2", "u8", "u16", "c/e2"), ("E3", "u8", "u16", "c/e3")]
T2 = [("T1", "i8", "c/t1"), ("T2", "i8", "c/t2")]
O2 = [("O1", "i8", "c/o1"), ("O2", "i8", "c/o2")]
EH = [("E1", "blocking", "eh8"), ("E2", "async", "eha"), ("E3", "spawn", "ehs")]
TH = [("T1", "blocking", "th"), ("T2", "spawn", "ths")]
XE = eps("XEPS", [("X1", "u8", "u16", "c/x1"), ("R1", "u8", "u32", "c/e1")])
XT = tps("XTPS", "ToServer", [("Y1", "i8", "c/y1")])
def prog(e, t, o, eh, th): return XE + XT + eps("EPS", e) + tps("TI", "ToServer", t) + tps("TO", "ToClient", o) + disp(eh, th)
P = {
 "ok_all": ("every handler is declared", prog(E3, T2, O2, EH, TH)),
 "ok_some": ("declared endpoints may lack handlers", prog(E3, T2, O2, EH[1:], TH[:1])),
 "ok_order": ("handlers in another order", prog(E3, T2, O2, EH[::-1], TH[::-1])),
 "ok_shared": ("a request and an outgoing topic may share a key", prog(E3 + [("E4", "u8", "u16", "c/s")], T2, O2 + [("O3", "u8", "c/s")], EH, TH)),
 "bad_ep_first": ("first endpoint handler is not declared", prog(E3, T2, O2, [("X1", "blocking", "eh8")] + EH, TH)),
 "bad_ep_last": ("last endpoint handler is not declared", prog(E3, T2, O2, EH + [("X1", "blocking", "eh8")], TH)),
 "bad_ep_only": ("the only endpoint handler is not declared", prog(E3, T2, O2, [("X1", "async", "eha")], [])),
 "bad_ep_resp": ("the handler's endpoint differs from the declared one in its response type only", prog(E3, T2, O2, [("R1", "blocking", "eh32")] + EH[1:], TH)),
 "bad_ep_resp_last": ("the same, as the last of several handlers", prog(E3, T2, O2, EH[1:] + [("R1", "blocking", "eh32")], TH)),
 "bad_tp_first": ("first topic handler is not declared", prog(E3, T2, O2, EH, [("Y1", "blocking", "th")] + TH)),
 "bad_tp_last": ("last topic handler is not declared", prog(E3, T2, O2, EH, TH + [("Y1", "blocking", "th")])),
 "bad_tp_only": ("the only topic handler is not declared", prog(E3, T2, O2, [], [("Y1", "async", "tha")])),
 "bad_tp_out": ("a topic of the outgoing list is handled", prog(E3, T2, O2, EH, TH + [("O1", "blocking", "th")])),
 "bad_dup_ep": ("two endpoints with identical keys", prog(E3 + [("E4", "u8", "u16", "c/e1")], T2, O2, EH, TH)),
 "bad_dup_ep_adj": ("two neighbouring endpoints with identical keys", prog([("E0", "u8", "u16", "c/e1")] + E3, T2, O2, EH, TH)),
 "bad_dup_req": ("two endpoints with identical request keys", prog(E3 + [("E4", "u8", "u64", "c/e3")], T2, O2, EH, TH)),
 "bad_dup_resp": ("two endpoints with identical response keys", prog(E3 + [("E4", "u64", "u16", "c/e3")], T2, O2, EH, TH)),
 "bad_dup_tp": ("two incoming topics with identical keys", prog(E3, T2 + [("T3", "i8", "c/t1")], O2, EH, TH)),
 "bad_dup_out": ("two outgoing topics with identical keys", prog(E3, T2, O2 + [("O3", "i8", "c/o2")], EH, TH)),
 "bad_dup_ep_tp": ("an endpoint request and an incoming topic with identical keys", prog(E3, T2 + [("T3", "u8", "c/e2")], O2, EH, TH)),
 "bad_dup_resp_out": ("an endpoint response and an outgoing topic with identical keys", prog(E3, T2, O2 + [("O3", "u16", "c/e3")], EH, TH)),
}
if __name__ == "__main__":
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "bin")
    os.makedirs(d, exist_ok=True)
    for n, (why, body) in P.items():
        open(os.path.join(d, n + ".rs"), "w").write(HEAD % ("compile" if n.startswith("ok") else "not compile", why) + body)
