//! A deterministic stand-in for the chain (wasmd + IBC core) around the real contract code.
//! One event = one transaction: entry point, synchronous sub-messages, replies, callbacks; any
//! error or panic reverts everything.  Only observable behaviour is recorded.
use crate::conv::*;
use crate::proto::{b64, decode, encode};
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier};
use cosmwasm_std::{
    Addr, Binary, CosmosMsg, DepsMut, Empty, Env, Event, IbcAcknowledgement, IbcBasicResponse, IbcChannel,
    IbcChannelCloseMsg, IbcChannelConnectMsg, IbcChannelOpenMsg, IbcEndpoint, IbcMsg, IbcOrder, IbcPacket,
    IbcPacketAckMsg, IbcPacketReceiveMsg, IbcPacketTimeoutMsg, IbcTimeout, IbcTimeoutBlock, MessageInfo, Order,
    QuerierWrapper, Record, Reply, ReplyOn, Response, Storage, SubMsg, SubMsgResponse, SubMsgResult, Timestamp,
    WasmMsg,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Default)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!value.is_empty(), "TL;DR: Value must not be empty in Storage::set");
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound;
        if let (Some(a), Some(b)) = (start, end) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

#[derive(Clone)]
pub struct Chan {
    pub id: String,
    pub st: &'static str,
    pub port: String,
    pub cport: String,
    pub cchan: String,
    pub order: &'static str,
    pub conn: String,
    pub ver: String,
    pub nseq: u64,
}
#[derive(Clone)]
pub struct Pkt {
    pub chan: String,
    pub seq: u64,
    pub data: Vec<u8>,
    pub ts: Option<u64>,
    pub th: Option<(u64, u64)>,
    /// the queries of the request that caused this packet (input bookkeeping)
    pub qs: Vec<Value>,
}
#[derive(Clone)]
pub struct World {
    pub exists: bool,
    pub store: Store,
    pub ctr: Store,
    pub chans: Vec<Chan>,
    pub out: Vec<Pkt>,
    pub ids: Vec<String>,
    pub conns: Vec<String>,
    pub seq0: u64,
    /// distance of consecutive sequences: more than one stands for packets in between that are over and done with
    pub step: u64,
    pub time: u64,
    pub height: u64,
    cur_qs: Vec<Value>,
    /// what the sample counter was told, by the file it belongs to
    pub told: std::collections::BTreeMap<String, Vec<std::sync::Arc<Binary>>>,
}

type R<T> = Result<T, String>;
fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

pub struct Ctx<'a> {
    eff: Vec<Value>,
    ev: &'a Value,
    /// counterparty-side calls the contract would have accepted on the way
    foreign: std::collections::BTreeSet<&'static str>,
    /// the contract accepted the request, whatever becomes of the transaction
    accepted: bool,
}

macro_rules! deps {
    ($st:expr, $api:ident, $q:ident) => {
        DepsMut { storage: $st, api: &$api, querier: QuerierWrapper::<Empty>::new(&$q) }
    };
}

/// whether the counterparty-side calls are tried in every state (property C19)
static PROBING: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("ICA_FOREIGN").is_ok());

impl World {
    pub fn new() -> Self {
        let mut w = World {
            exists: false,
            store: Store::default(),
            ctr: Store::default(),
            chans: vec![],
            out: vec![],
            ids: (0..16).map(|i| format!("channel-{i}")).collect(),
            conns: [0u64, 1, 2, 3, 10, 12, 18_446_744_073_709_551_615, 4_294_967_296, 4_294_967_297, 100, 9_007_199_254_740_993].iter().map(|i| format!("connection-{i}")).collect(),
            seq0: 1,
            step: 1,
            time: 1_700_000_000_000_000_000,
            height: 12_345,
            cur_qs: vec![],
            told: Default::default(),
        };
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = w.env();
        callback_counter::contract::instantiate(
            deps!(&mut w.ctr, api, q),
            env,
            info("deployer"),
            callback_counter::msg::InstantiateMsg {},
        )
        .expect("harness: counter instantiate");
        w
    }
    pub fn env(&self) -> Env {
        let mut e = mock_env();
        e.block.height = self.height;
        e.block.time = Timestamp::from_nanos(self.time);
        e.contract.address = Addr::unchecked(addr("self"));
        e
    }

    // ------------------------------------------------------------ observation
    pub fn query(&self, msg: Value) -> R<Value> {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let deps = cosmwasm_std::Deps { storage: &self.store, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
        let env = self.env();
        let r = catch_unwind(AssertUnwindSafe(|| -> R<Binary> {
            let m = cosmwasm_std::from_json(serde_json::to_vec(&msg).unwrap()).map_err(es)?;
            cw_ica_controller::contract::query(deps, env, m).map_err(es)
        }))
        .map_err(|_| "panic".to_string())??;
        serde_json::from_slice(&r).map_err(es)
    }
    pub fn observe(&self) -> Value {
        if !self.exists {
            return json!({"exists":"f"});
        }
        let own = self.query(json!({"ownership":{}})).ok();
        let st = self.query(json!({"get_contract_state":{}})).ok();
        let ch = self.query(json!({"get_channel":{}})).ok();
        let mut o = observation(own.as_ref(), st.as_ref(), ch.as_ref());
        let ver = self
            .store
            .0
            .get(&b"contract_info"[..])
            .and_then(|v| serde_json::from_slice::<Value>(v).ok())
            .and_then(|v| Some(json!({"name":v.get("contract")?.as_str()?,"ver":v.get("version")?.as_str()?})));
        o["exists"] = json!("t");
        o["ver"] = ver.unwrap_or(json!({"name":"none","ver":"none"}));
        o["ctr"] = self.observe_ctr();
        o
    }
    fn observe_ctr(&self) -> Value {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let deps = cosmwasm_std::Deps { storage: &self.ctr, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
        let env = self.env();
        let r = catch_unwind(AssertUnwindSafe(|| -> R<Binary> {
            let m = cosmwasm_std::from_json(br#"{"get_callback_counter":{}}"#).map_err(es)?;
            callback_counter::contract::query(deps, env, m).map_err(es)
        }));
        let v: Option<Value> = r.ok().and_then(Result::ok).and_then(|b| serde_json::from_slice(&b).ok());
        let l = |k: &str| -> Value {
            v.as_ref()
                .and_then(|v| v.get(k))
                .and_then(Value::as_array)
                .map(|a| a.iter().map(|m| parse_callback_inner(m).unwrap_or(json!({"k":"garbled"}))).collect::<Vec<_>>())
                .map_or(json!([{"k":"unreadable"}]), |x| json!(x))
        };
        json!({"success":l("success"),"error":l("error"),"timeout":l("timeout")})
    }
    pub fn observe_core(&self) -> Value {
        json!({
            "chans": self.chans.iter().map(|c| json!({"id":c.id,"st":c.st,"port":al(&c.port),"cport":c.cport,"cchan":c.cchan,
                "order":c.order,"conn":c.conn,"ver":parse_version(&c.ver),"nseq":limbs(c.nseq)})).collect::<Vec<_>>(),
            "out": self.out.iter().map(|p| json!({"chan":p.chan,"seq":limbs(p.seq),"tok":tok(&p.data),
                "ts":p.ts.map_or(json!([]), |t| json!([limbs(t)])),
                "th":p.th.map_or(json!([]), |(r,h)| json!([{"rev":r.to_string(),"h":h.to_string()}])),
                "qs":p.qs})).collect::<Vec<_>>(),
            "time": limbs(self.time), "height": limbs(self.height),
        })
    }

    // ------------------------------------------------------------ transactions
    /// Executes one event; returns the (possibly enriched) event and the observation.
    pub fn step(&mut self, ev: &Value) -> (Value, Value) {
        let mut e = ev.clone();
        if s(&e["op"]) == "ack" && s(&e["a"]["k"]) == "result" {
            let qs = self.pkt(&e).map(|p| p.qs.clone()).unwrap_or_default();
            let b = ack_result_bytes(&e["a"]["d"], &qs);
            e["a"]["tok"] = json!(tok(&b));
        }
        if !self.exists && ["inst", "legacy"].contains(&s(&e["op"])) {
            self.set_env(&e);
        }
        let snap = self.clone();
        let mut cx = Ctx { eff: vec![], ev: &e, foreign: Default::default(), accepted: false };
        let r = catch_unwind(AssertUnwindSafe(|| self.run(&mut cx)));
        let eff = std::mem::take(&mut cx.eff);
        let mut foreign = std::mem::take(&mut cx.foreign);
        let accepted = cx.accepted;
        let (ok, eff, why) = match r {
            Ok(Ok(())) => (true, eff, String::new()),
            Ok(Err(x)) => {
                *self = snap;
                (false, vec![], x)
            }
            Err(p) => {
                *self = snap;
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default();
                if m.starts_with("harness:") {
                    panic!("{m}");
                }
                (false, vec![], format!("panic: {m}"))
            }
        };
        let mut why = why;
        why.retain(|c| c.is_ascii() && c != '"' && c != '\\' && !c.is_control());
        why.truncate(160);
        let mut o = json!({"ok": if ok {"t"} else {"f"}, "eff": eff, "st": self.observe(), "core": self.observe_core(), "kept": self.kept(), "why": why});
        if accepted && !ok {
            // the contract did what was asked, the transaction failed later on
            o["late"] = json!("t");
        }
        if *PROBING && self.exists {
            self.foreign(&mut foreign);
            o["foreign"] = json!(foreign);
        }
        (e, o)
    }
    /// delivers a callback to the sample counter
    fn tell_counter(&mut self, sender: &str, msg: &Binary) -> R<()> {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = self.env();
        let m = cosmwasm_std::from_json(msg).map_err(es)?;
        callback_counter::contract::execute(deps!(&mut self.ctr, api, q), env, info(sender), m).map_err(es)?;
        let x = parse_callback(msg);
        let file = match (s(&x["k"]), x["ack"]["k"].as_str().unwrap_or("")) {
            ("ack", "result") => "success",
            ("ack", "error") => "error",
            ("timeout", _) => "timeout",
            _ => return Ok(()),
        };
        self.told.entry(file.into()).or_default().push(msg.clone().into());
        Ok(())
    }
    /// how much the contract stores, and the size of the queries of packets in flight
    fn kept(&self) -> Value {
        let bytes: usize = self.store.0.iter().map(|(k, v)| k.len() + v.len()).sum();
        let asked: usize = self.out.iter().flat_map(|p| p.qs.iter()).map(|q| q.to_string().len()).sum();
        json!({"keys":self.store.0.len(),"bytes":bytes,"asked":asked})
    }
    fn pkt(&self, e: &Value) -> Option<&Pkt> {
        let seq = unlimbs(&e["seq"]);
        self.out.iter().find(|p| p.chan == s(&e["chan"]) && p.seq == seq)
    }
    fn chan(&mut self, id: &str) -> R<&mut Chan> {
        self.chans.iter_mut().find(|c| c.id == id).ok_or_else(|| format!("core: no channel {id}"))
    }

    fn run(&mut self, cx: &mut Ctx) -> R<()> {
        let e = cx.ev.clone();
        let op = s(&e["op"]);
        if op == "inst" {
            return self.op_inst(cx, &e);
        }
        if op == "legacy" {
            return self.op_legacy(&e);
        }
        if op == "tick" {
            self.time = self.time.checked_add(unlimbs(&e["dt"])).ok_or("harness: time")?;
            self.height += unlimbs(&e["dh"]);
            return Ok(());
        }
        if !self.exists {
            return Err("no contract".into());
        }
        match op {
            // the same callback reaches the sample counter once more, from whomever
            "again" => {
                let i = e["i"].as_u64().expect("harness: index") as usize;
                let m = self.told.get(s(&e["f"])).and_then(|l| l.get(i - 1)).cloned().ok_or("not told before")?;
                self.tell_counter(s(&e["sender"]), &m)
            }
            "garbled" => self.op_garbled(cx, &e),
            "exec" => {
                let mut m = real_exec(&e["m"]);
                self.cur_qs = if s(&e["m"]["k"]) == "send" { arr(&e["m"]["qs"]).clone() } else { vec![] };
                if let Some(v) = e.get("via") {
                    // another contract builds the message with the helper, the chain delivers it
                    let (ty, eff, payload) = crate::help::execute(s(&v["to"]), &m)?;
                    cx.eff.push(eff);
                    if ty != "execute" || s(&v["to"]) != "self" {
                        return Ok(());
                    }
                    m = payload;
                }
                let resp = self.call_execute(paid(s(&e["sender"]), &e), &m)?;
                cx.accepted = true;
                self.response(cx, resp)
            }
            "admin" => {
                cx.eff.push(crate::help::admin(&e));
                Ok(())
            }
            "hquery" => {
                let eff = crate::help::query(self, s(&e["to"]))?;
                cx.eff.push(eff);
                Ok(())
            }
            "open_init" => {
                // a relayer (or anybody) submits MsgChannelOpenInit for the contract's port
                self.core_open_init(
                    cx,
                    &port_of("wasm.self"),
                    s(&e["conn"]),
                    s(&e["cport"]),
                    order_of(s(&e["order"])),
                    render_version(&e["ver"]),
                )
            }
            "open_try" => {
                if !self.conns.contains(&s(&e["conn"]).to_string()) {
                    return Err("core: unknown connection".into());
                }
                let ch = Chan {
                    id: self.ids.get(self.chans.len()).cloned().ok_or("core: no ids")?,
                    st: "TRYOPEN",
                    port: port_of("wasm.self"),
                    cport: s(&e["cport"]).to_string(),
                    cchan: s(&e["cchan"]).to_string(),
                    order: order_of(s(&e["order"])),
                    conn: s(&e["conn"]).to_string(),
                    ver: String::new(),
                    nseq: self.seq0,
                };
                let msg = IbcChannelOpenMsg::OpenTry { channel: real_channel(&ch), counterparty_version: render_version(&e["ver"]) };
                self.call_open(cx, msg)?;
                self.chans.push(ch);
                Ok(())
            }
            "open_ack" => {
                let id = s(&e["chan"]).to_string();
                let c = self.chan(&id)?;
                if c.st != "INIT" {
                    return Err("core: not INIT".into());
                }
                let cver = render_version(&e["cver"]);
                let mut d = c.clone();
                d.cchan = s(&e["cchan"]).to_string();
                tamper(&mut d, &e["tam"]);
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let r = cw_ica_controller::ibc::handshake::ibc_channel_connect(
                    deps!(&mut self.store, api, q),
                    env,
                    IbcChannelConnectMsg::OpenAck { channel: real_channel(&d), counterparty_version: cver.clone() },
                )
                .map_err(es)?;
                self.basic(cx, r)?;
                let c = self.chan(&id)?;
                c.st = "OPEN";
                c.ver = cver;
                c.cchan = s(&e["cchan"]).to_string();
                Ok(())
            }
            "open_confirm" => {
                let c = self.chan(s(&e["chan"]))?.clone();
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let r = cw_ica_controller::ibc::handshake::ibc_channel_connect(
                    deps!(&mut self.store, api, q),
                    env,
                    IbcChannelConnectMsg::OpenConfirm { channel: real_channel(&c) },
                )
                .map_err(es)?;
                self.basic(cx, r)?;
                self.chan(s(&e["chan"]))?.st = "OPEN";
                Ok(())
            }
            "close_init" => self.core_close_init(cx, s(&e["chan"])),
            "close_confirm" => {
                let id = s(&e["chan"]).to_string();
                let c = self.chan(&id)?;
                if c.st != "OPEN" && e["tam"]["force"] != json!("t") {
                    return Err("core: not OPEN".into());
                }
                let mut d = c.clone();
                tamper(&mut d, &e["tam"]);
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let r = cw_ica_controller::ibc::handshake::ibc_channel_close(
                    deps!(&mut self.store, api, q),
                    env,
                    IbcChannelCloseMsg::CloseConfirm { channel: real_channel(&d) },
                )
                .map_err(es)?;
                self.basic(cx, r)?;
                self.chan(&id)?.st = "CLOSED";
                Ok(())
            }
            "ack" => {
                let p = self.pkt(&e).cloned().ok_or("core: no such packet")?;
                let c = self.chan(&p.chan)?.clone();
                let a = &e["a"];
                let data = match s(&a["k"]) {
                    "result" => format!("{{\"result\":\"{}\"}}", b64(&ack_result_bytes(&a["d"], &p.qs))).into_bytes(),
                    "error" => {
                        let how = e["how"].as_str().unwrap_or("");
                        let sp = if how == "spaced" { " " } else { "" };
                        format!("{{{sp}\"error\"{sp}:{sp}{}{sp}}}", crate::conv::json_text(s(&a["s"]), how)).into_bytes()
                    }
                    "garbage" => s(&a["s"]).as_bytes().to_vec(),
                    k => panic!("harness: ack {k}"),
                };
                let msg = IbcPacketAckMsg::new(
                    IbcAcknowledgement::new(data),
                    real_packet(&p, &c),
                    Addr::unchecked(addr(s(&e["rel"]))),
                );
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let r = cw_ica_controller::ibc::relay::ibc_packet_ack(deps!(&mut self.store, api, q), env, msg).map_err(es)?;
                self.out.retain(|x| !(x.chan == p.chan && x.seq == p.seq));
                self.basic(cx, r)
            }
            "timeout" => {
                let p = self.pkt(&e).cloned().ok_or("core: no such packet")?;
                let c = self.chan(&p.chan)?.clone();
                let msg = IbcPacketTimeoutMsg::new(real_packet(&p, &c), Addr::unchecked(addr(s(&e["rel"]))));
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let r = cw_ica_controller::ibc::relay::ibc_packet_timeout(deps!(&mut self.store, api, q), env, msg).map_err(es)?;
                self.out.retain(|x| !(x.chan == p.chan && x.seq == p.seq));
                self.basic(cx, r)?;
                if c.order == "ORDER_ORDERED" {
                    self.chan(&p.chan)?.st = "CLOSED";
                }
                Ok(())
            }
            "recv" => {
                let c = self.chan(s(&e["chan"]))?.clone();
                let pkt = IbcPacket::new(
                    s(&e["data"]).as_bytes().to_vec(),
                    IbcEndpoint { port_id: c.cport.clone(), channel_id: c.cchan.clone() },
                    IbcEndpoint { port_id: c.port.clone(), channel_id: c.id.clone() },
                    1,
                    IbcTimeout::with_timestamp(Timestamp::from_nanos(self.time + 1)),
                );
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let r = cw_ica_controller::ibc::relay::ibc_packet_receive(
                    deps!(&mut self.store, api, q),
                    env,
                    IbcPacketReceiveMsg::new(pkt, Addr::unchecked(addr("relayer"))),
                );
                match r {
                    Ok(r) => {
                        self.events(cx, &r.attributes, &r.events);
                        self.dispatch(cx, r.messages)
                    }
                    #[allow(unreachable_patterns)]
                    Err(_) => Err("recv".into()),
                }
            }
            "migrate" => {
                // what an older code of this (or another) contract left behind
                self.store.set(
                    b"contract_info",
                    serde_json::to_string(&json!({"contract":e["name"],"version":e["ver"]})).unwrap().as_bytes(),
                );
                if let Some(enc) = opt(&e["enc"]) {
                    let raw = self.store.get(b"state").ok_or("harness: state item")?;
                    let mut v: Value = serde_json::from_slice(&raw).map_err(es)?;
                    if v["ica_info"].is_object() {
                        v["ica_info"]["encoding"] = enc.clone();
                    }
                    self.store.set(b"state", &serde_json::to_vec(&v).unwrap());
                }
                let api = MockApi::default();
                let q: MockQuerier<Empty> = MockQuerier::new(&[]);
                let env = self.env();
                let mut m = json!({});
                if let Some(v) = e.get("via") {
                    let (ty, eff, payload) = crate::help::migrate(v)?;
                    cx.eff.push(eff);
                    if ty != "migrate" || s(&v["to"]) != "self" {
                        return Err("migration of another contract".into());
                    }
                    m = payload;
                }
                let m = cosmwasm_std::from_json(serde_json::to_vec(&m).unwrap()).map_err(es)?;
                let r = cw_ica_controller::contract::migrate(deps!(&mut self.store, api, q), env, m).map_err(es)?;
                self.response(cx, r)
            }
            _ => panic!("harness: op {op}"),
        }
    }

    fn op_inst(&mut self, cx: &mut Ctx, e: &Value) -> R<()> {
        if self.exists {
            return Err("exists".into());
        }
        let mut m = real_inst(e);
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = self.env();
        if let Some(v) = e.get("via") {
            let (effs, payload) = crate::help::instantiate(self, s(&e["sender"]), v, &m)?;
            cx.eff.extend(effs);
            m = payload;
        }
        let msg = cosmwasm_std::from_json(serde_json::to_vec(&m).unwrap()).map_err(es)?;
        let r = cw_ica_controller::contract::instantiate(deps!(&mut self.store, api, q), env, paid(s(&e["sender"]), e), msg).map_err(es)?;
        self.exists = true;
        self.response(cx, r)
    }

    fn set_env(&mut self, e: &Value) {
        let w = &e["env"];
        self.ids = arr(&w["ids"]).iter().map(|x| s(x).to_string()).collect();
        self.seq0 = unlimbs(&w["seq0"]);
        self.step = unlimbs(&w["step"]);
        self.time = unlimbs(&w["time"]);
        self.height = unlimbs(&w["height"]);
    }
    /// A contract instance as an earlier release stored it (frozen byte layout).
    fn op_legacy(&mut self, e: &Value) -> R<()> {
        self.exists = true;
        let put = |st: &mut Store, k: &[u8], v: Value| st.set(k, &serde_json::to_vec(&v).unwrap());
        let o = |v: &Value| opt(v).cloned().unwrap_or(Value::Null);
        let st = &e["st"];
        put(&mut self.store, b"contract_info", json!({"contract":st["ver"]["name"],"version":st["ver"]["ver"]}));
        let own = &st["own"];
        put(&mut self.store, b"ownership", json!({
            "owner": opt(&own["owner"]).map_or(Value::Null, |a| json!(addr(s(a)))),
            "pending_owner": opt(&own["pend"]).map_or(Value::Null, |a| json!(addr(s(a)))),
            "pending_expiry": opt(&own["exp"]).map_or(Value::Null, real_expiry)}));
        let state = serde_json::to_string(&json!({
            "ica_info": opt(&st["ica"]).map_or(Value::Null, |i| json!({"ica_address":i["addr"],"channel_id":i["chan"],"encoding":i["enc"]})),
            "callback_address": opt(&st["cb"]).map_or(Value::Null, |a| json!(addr(s(a))))})).unwrap();
        let state = e["more"].as_array().and_then(|m| m.first()).map_or(state.clone(), |m| state.replacen('{', s(m), 1));
        self.store.set(b"state", state.as_bytes());
        put(&mut self.store, b"channel_open_init_options", json!({
            "connection_id":e["opts"]["conn"],"counterparty_connection_id":e["opts"]["cconn"],
            "counterparty_port_id":o(&e["opts"]["cport"]),"channel_ordering":o(&e["opts"]["ord"])}));
        put(&mut self.store, b"allow_channel_open_init", json!(false));
        if let Some(c) = opt(&st["ch"]) {
            let ch = &c["c"];
            put(&mut self.store, b"ica_channel", json!({"channel":{
                "endpoint":{"port_id":port_of(s(&ch["port"])),"channel_id":ch["id"]},
                "counterparty_endpoint":{"port_id":ch["cport"],"channel_id":ch["cchan"]},
                "order":ch["order"],"version":render_version(&ch["ver"]),"connection_id":ch["conn"]},
                "channel_status":c["st"]}));
        }
        for c in arr(&e["core"]["chans"]) {
            self.chans.push(Chan {
                id: s(&c["id"]).into(),
                st: match s(&c["st"]) { "OPEN" => "OPEN", "CLOSED" => "CLOSED", _ => "INIT" },
                port: port_of(s(&c["port"])),
                cport: s(&c["cport"]).into(),
                cchan: s(&c["cchan"]).into(),
                order: order_of(s(&c["order"])),
                conn: s(&c["conn"]).into(),
                ver: render_version(&c["ver"]),
                nseq: unlimbs(&c["nseq"]),
            });
        }
        for p in arr(&e["core"]["out"]) {
            let (chan, seq) = (s(&p["chan"]).to_string(), unlimbs(&p["seq"]));
            let qs = arr(&p["qs"]).clone();
            if !qs.is_empty() {
                let mut k = vec![0u8, 15];
                k.extend_from_slice(b"pending_queries");
                k.extend_from_slice(&(chan.len() as u16).to_be_bytes());
                k.extend_from_slice(chan.as_bytes());
                k.extend_from_slice(&seq.to_be_bytes());
                let v: Vec<Value> = qs.iter().map(|q| json!([path_of(q), s(&q["t"]) == "q_stargate"])).collect();
                put(&mut self.store, &k, json!(v));
            }
            self.out.push(Pkt { chan, seq, data: b"legacy".to_vec(), ts: opt(&p["ts"]).map(unlimbs), th: opt(&p["th"]).map(|h| (s(&h["rev"]).parse().unwrap(), s(&h["h"]).parse().unwrap())), qs });
        }
        Ok(())
    }

    // ------------------------------------------------------------ contract calls
    fn call_execute(&mut self, info: MessageInfo, m: &Value) -> R<Response> {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = self.env();
        let msg = cosmwasm_std::from_json(serde_json::to_vec(m).unwrap()).map_err(es)?;
        cw_ica_controller::contract::execute(deps!(&mut self.store, api, q), env, info, msg).map_err(es)
    }
    /// a text that is not a request; what is accepted all the same is carried out as far as the contract goes
    fn op_garbled(&mut self, cx: &mut Ctx, e: &Value) -> R<()> {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = self.env();
        let text = s(&e["text"]).as_bytes();
        match s(&e["entry"]) {
            "execute" => {
                let m = cosmwasm_std::from_json(text).map_err(es)?;
                let r = cw_ica_controller::contract::execute(deps!(&mut self.store, api, q), env, info(s(&e["sender"])), m).map_err(es)?;
                self.cur_qs = vec![];
                // an accepted request counts, whatever becomes of its messages
                let n = r.messages.len();
                cx.eff.push(json!({"k":"garbled","n":n}));
            }
            "instantiate" => {
                let m = cosmwasm_std::from_json(text).map_err(es)?;
                let mut st = Store::default();
                cw_ica_controller::contract::instantiate(deps!(&mut st, api, q), env, info(s(&e["sender"])), m).map_err(es)?;
            }
            "migrate" => {
                self.store.set(b"contract_info", br#"{"contract":"crates.io:cw-ica-controller","version":"0.1.0"}"#);
                let m = cosmwasm_std::from_json(text).map_err(es)?;
                cw_ica_controller::contract::migrate(deps!(&mut self.store, api, q), env, m).map_err(es)?;
            }
            "query" => {
                let m = cosmwasm_std::from_json(text).map_err(es)?;
                let deps = cosmwasm_std::Deps { storage: &self.store, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
                cw_ica_controller::contract::query(deps, env, m).map_err(es)?;
            }
            x => panic!("harness: entry {x}"),
        }
        Ok(())
    }
    fn call_open(&mut self, cx: &mut Ctx, msg: IbcChannelOpenMsg) -> R<Option<String>> {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = self.env();
        let r = cw_ica_controller::ibc::handshake::ibc_channel_open(deps!(&mut self.store, api, q), env, msg).map_err(es)?;
        let v = r.map(|x| x.version);
        cx.eff.push(json!({"k":"ver","v": v.as_ref().map_or(json!([]), |v| json!([parse_version(v)]))}));
        Ok(v)
    }

    fn core_open_init(&mut self, cx: &mut Ctx, port: &str, conn: &str, cport: &str, order: &'static str, version: String) -> R<()> {
        if port != port_of("wasm.self") {
            return Err("core: port not owned by contract".into());
        }
        if !self.conns.iter().any(|c| c == conn) {
            return Err("core: unknown connection".into());
        }
        let ch = Chan {
            id: self.ids.get(self.chans.len()).cloned().ok_or("core: no ids")?,
            st: "INIT",
            port: port.to_string(),
            cport: cport.to_string(),
            cchan: String::new(),
            order,
            conn: conn.to_string(),
            ver: version.clone(),
            nseq: self.seq0,
        };
        let mut d = ch.clone();
        tamper(&mut d, &cx.ev["tam"]);
        let v = self.call_open(cx, IbcChannelOpenMsg::OpenInit { channel: real_channel(&d) })?;
        self.chans.push(Chan { ver: v.unwrap_or(version), ..ch });
        Ok(())
    }
    fn core_close_init(&mut self, cx: &mut Ctx, id: &str) -> R<()> {
        let tam = cx.ev["tam"].clone();
        let c = self.chan(id)?;
        if c.st == "CLOSED" && tam["force"] != json!("t") {
            return Err("core: already closed".into());
        }
        let mut d = c.clone();
        tamper(&mut d, &tam);
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let env = self.env();
        let r = cw_ica_controller::ibc::handshake::ibc_channel_close(
            deps!(&mut self.store, api, q),
            env,
            IbcChannelCloseMsg::CloseInit { channel: real_channel(&d) },
        )
        .map_err(es)?;
        self.basic(cx, r)?;
        self.chan(id)?.st = "CLOSED";
        Ok(())
    }

    // ------------------------------------------------------------ dispatch
    fn events(&mut self, cx: &mut Ctx, attrs: &[cosmwasm_std::Attribute], evs: &[Event]) {
        let at = |a: &[cosmwasm_std::Attribute]| -> Vec<Value> {
            a.iter()
                .map(|a| {
                    let v = if a.key == "packet_ack_base64" {
                        Binary::from_base64(&a.value).map_or_else(|_| a.value.clone(), |b| tok(&b))
                    } else {
                        al(&a.value)
                    };
                    json!([a.key, v])
                })
                .collect()
        };
        if !attrs.is_empty() {
            cx.eff.push(json!({"k":"ev","ty":"wasm","at":at(attrs)}));
        }
        for e in evs {
            cx.eff.push(json!({"k":"ev","ty":e.ty,"at":at(&e.attributes)}));
        }
    }
    fn response(&mut self, cx: &mut Ctx, r: Response) -> R<()> {
        self.events(cx, &r.attributes, &r.events);
        self.dispatch(cx, r.messages)
    }
    fn basic(&mut self, cx: &mut Ctx, r: IbcBasicResponse) -> R<()> {
        self.events(cx, &r.attributes, &r.events);
        self.dispatch(cx, r.messages)
    }
    /// Tries the calls of the counterparty's side of a channel on a copy of the contract; `hit` gets
    /// the ones it accepts.  Also used in the middle of a transaction, where the chain is about to
    /// handle a message of the contract.
    fn foreign(&self, hit: &mut std::collections::BTreeSet<&'static str>) {
        use cw_ica_controller::ibc::{handshake::{ibc_channel_connect, ibc_channel_open}, relay::ibc_packet_receive};
        let n = self.height.wrapping_add(self.chans.len() as u64).wrapping_add(self.time / 1_000_000_000);
        let next = Chan {
            id: self.ids.get(self.chans.len()).cloned().unwrap_or_else(|| "channel-77".into()),
            st: "TRYOPEN",
            port: port_of("wasm.self"),
            cport: "icahost".into(),
            cchan: "channel-5".into(),
            order: if n % 2 == 0 { "ORDER_ORDERED" } else { "ORDER_UNORDERED" },
            conn: "connection-0".into(),
            ver: String::new(),
            nseq: 1,
        };
        // a new channel, the latest one, and the contract's current one with its own properties
        let mut chans = vec![next];
        chans.extend(self.chans.last().cloned());
        if let Some(c) = self.query(json!({"get_channel":{}})).ok().and_then(|v| parse_channel(&v["channel"])) {
            let id = s(&c["id"]);
            if let Some(x) = self.chans.iter().find(|x| x.id == id) {
                chans.push(x.clone());
            }
        }
        let own_version = self.chans.last().map_or(String::new(), |c| c.ver.clone());
        let mut go = |name: &'static str, f: &mut dyn FnMut(DepsMut<'_>, Env) -> bool| {
            let mut st = self.store.clone();
            let api = MockApi::default();
            let q: MockQuerier<Empty> = MockQuerier::new(&[]);
            if catch_unwind(AssertUnwindSafe(|| f(deps!(&mut st, api, q), self.env()))).unwrap_or(false) {
                hit.insert(name);
            }
        };
        for c in &chans {
            let mut d = real_channel(c);
            for cv in ["", own_version.as_str(), "ics27-1"] {
                go("open_try", &mut |deps, env| ibc_channel_open(deps, env, IbcChannelOpenMsg::OpenTry { channel: d.clone(), counterparty_version: cv.into() }).is_ok());
                d.version = own_version.clone();
            }
            let d = real_channel(c);
            go("open_confirm", &mut |deps, env| ibc_channel_connect(deps, env, IbcChannelConnectMsg::OpenConfirm { channel: d.clone() }).is_ok());
            let data = [&b"{}"[..], b"", br#"{"type":"TYPE_EXECUTE_TX","data":"","memo":""}"#, br#"{"type":1,"data":[]}"#][(n % 4) as usize];
            let pkt = IbcPacket::new(
                data.to_vec(),
                IbcEndpoint { port_id: c.cport.clone(), channel_id: c.cchan.clone() },
                IbcEndpoint { port_id: c.port.clone(), channel_id: c.id.clone() },
                1 + n % 3,
                IbcTimeout::with_timestamp(Timestamp::from_nanos(self.time + 1)),
            );
            go("recv", &mut |deps, env| {
                #[allow(irrefutable_let_patterns)]
                let r = ibc_packet_receive(deps, env, IbcPacketReceiveMsg::new(pkt.clone(), Addr::unchecked(addr("relayer"))));
                r.is_ok()
            });
        }
    }
    fn dispatch(&mut self, cx: &mut Ctx, msgs: Vec<SubMsg>) -> R<()> {
        for m in msgs {
            if *PROBING {
                self.foreign(&mut cx.foreign);
            }
            let snap = self.clone();
            let neff = cx.eff.len();
            let r = self.submsg(cx, m.msg);
            let res = match r {
                Ok(data) => {
                    if !matches!(m.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        continue;
                    }
                    #[allow(deprecated)]
                    SubMsgResult::Ok(SubMsgResponse { events: vec![], data: data.clone().map(|d| d.1), msg_responses: data
                        .map(|(url, value)| vec![cosmwasm_std::MsgResponse { type_url: url, value }])
                        .unwrap_or_default() })
                }
                Err(x) => {
                    *self = snap;
                    cx.eff.truncate(neff);
                    if !matches!(m.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        return Err(x);
                    }
                    cx.eff.push(json!({"k":"swallowed"}));
                    SubMsgResult::Err(x)
                }
            };
            let api = MockApi::default();
            let q: MockQuerier<Empty> = MockQuerier::new(&[]);
            let env = self.env();
            let rep = Reply { id: m.id, payload: m.payload, gas_used: 1, result: res };
            let r = cw_ica_controller::contract::reply(deps!(&mut self.store, api, q), env, rep).map_err(es)?;
            self.response(cx, r)?;
        }
        Ok(())
    }
    fn submsg(&mut self, cx: &mut Ctx, m: CosmosMsg) -> R<Option<(String, Binary)>> {
        #[allow(deprecated)]
        match m {
            CosmosMsg::Stargate { type_url, value } if type_url == "/ibc.core.channel.v1.MsgChannelOpenInit" => {
                let d = decode(&type_url, &value).ok_or("core: undecodable MsgChannelOpenInit")?;
                let ch = opt(&d["channel"]).ok_or("core: no channel")?.clone();
                let cp = opt(&ch["counterparty"]).ok_or("core: no counterparty")?.clone();
                let hops: Vec<String> = arr(&ch["connection_hops"]).iter().map(|x| s(x).to_string()).collect();
                let order = match s(&ch["ordering"]) {
                    "1" => "ORDER_UNORDERED",
                    "2" => "ORDER_ORDERED",
                    _ => "ORDER_NONE",
                };
                cx.eff.push(json!({"k":"open_init","port":al(s(&d["port_id"])),"signer":al(s(&d["signer"])),"conns":hops,
                    "cport":cp["port_id"],"cchan":cp["channel_id"],"order":order,"state":ch["state"],
                    "ver":parse_version(s(&ch["version"]))}));
                if s(&ch["state"]) != "1" || order == "ORDER_NONE" || hops.len() != 1 || s(&d["signer"]) != addr("self") || !s(&cp["channel_id"]).is_empty() {
                    return Err("core: invalid MsgChannelOpenInit".into());
                }
                self.core_open_init(cx, s(&d["port_id"]), &hops[0], s(&cp["port_id"]), order, s(&ch["version"]).to_string())?;
                Ok(None)
            }
            CosmosMsg::Ibc(IbcMsg::CloseChannel { channel_id }) => {
                cx.eff.push(json!({"k":"close","chan":channel_id}));
                self.core_close_init(cx, &channel_id)?;
                Ok(None)
            }
            CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, data, timeout }) => {
                let ts = timeout.timestamp().map(|t| t.nanos());
                let th = timeout.block().map(|b| (b.revision, b.height));
                cx.eff.push(json!({"k":"send","chan":channel_id,"data":parse_packet(&data),
                    "ts":ts.map_or(json!([]), |t| json!([limbs(t)])),
                    "th":th.map_or(json!([]), |(r,h)| json!([{"rev":r.to_string(),"h":h.to_string()}]))}));
                let qs = self.cur_qs.clone();
                let step = self.step;
                let c = self.chan(&channel_id)?;
                if c.st != "OPEN" {
                    return Err("core: channel not OPEN".into());
                }
                if ts.unwrap_or(0) == 0 && th.is_none() {
                    return Err("core: no timeout".into());
                }
                let seq = c.nseq;
                c.nseq += step;
                self.out.push(Pkt { chan: channel_id, seq, data: data.to_vec(), ts, th, qs });
                let d = encode("SendResp", &json!({"sequence":seq.to_string()}));
                Ok(Some(("/ibc.core.channel.v1.MsgSendPacketResponse".into(), d.into())))
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let to = al(&contract_addr);
                cx.eff.push(json!({"k":"cb","to":to,"funds":funds.iter().map(|c| json!({"denom":c.denom,"amount":c.amount.to_string()})).collect::<Vec<_>>(),
                    "m":parse_callback(&msg),"mac":crate::receiver::recovers(&msg)}));
                let cbm = cx.ev.get("cbm").map_or("ok", |x| s(x)).to_string();
                if cbm == "fail" {
                    return Err("callback contract failed".into());
                }
                if to == "self" {
                    let m = serde_json::from_slice(&msg).unwrap_or(Value::Null);
                    let resp = self.call_execute(info(&to), &m)?;
                    self.response(cx, resp)?;
                    return Ok(None);
                }
                if to == "ctr" {
                    self.tell_counter("self", &msg)?;
                }
                if cbm == "re" {
                    // the callback contract calls back into the controller while handling the callback
                    let m = cx.ev["re"].clone();
                    self.cur_qs = if s(&m["k"]) == "send" { arr(&m["qs"]).clone() } else { vec![] };
                    let resp = self.call_execute(info(&to), &real_exec(&m))?;
                    self.response(cx, resp)?;
                }
                Ok(None)
            }
            other => {
                cx.eff.push(json!({"k":"other","m":format!("{other:?}").chars().take(60).filter(char::is_ascii).collect::<String>()}));
                Ok(None)
            }
        }
    }
}

// ---------------------------------------------------------------- small helpers
/// what the contract's queries report (ch: None if there is no channel)
pub fn observation(own: Option<&Value>, st: Option<&Value>, ch: Option<&Value>) -> Value {
    let own = own.and_then(|o| {
        Some(json!({
            "owner": nul(o.get("owner")?, |x| Some(json!(al(x.as_str()?))))?,
            "pend": nul(o.get("pending_owner")?, |x| Some(json!(al(x.as_str()?))))?,
            "exp": nul(o.get("pending_expiry")?, parse_expiry)?,
        }))
    });
    let cb = st.and_then(|s| nul(s.get("callback_address").unwrap_or(&Value::Null), |x| Some(json!(al(x.as_str()?)))));
    let ica = st.and_then(|s| {
        nul(s.get("ica_info").unwrap_or(&Value::Null), |i| {
            Some(json!({"addr":i.get("ica_address")?.as_str()?,"chan":i.get("channel_id")?.as_str()?,"enc":i.get("encoding")?.as_str()?}))
        })
    });
    let ch = match ch {
        None => Some(json!([])),
        Some(c) => c
            .get("channel")
            .and_then(parse_channel)
            .and_then(|ch| Some(json!([{"c":ch,"st":c.get("channel_status")?.as_str()?}]))),
    };
    json!({
        "own": own.unwrap_or(json!({"unreadable":"t"})),
        "cb": cb.unwrap_or(json!(["unreadable"])),
        "ica": ica.unwrap_or(json!([{"unreadable":"t"}])),
        "ch": ch.unwrap_or(json!([{"c":{"unreadable":"t"},"st":"unreadable"}])),
    })
}
pub fn info(alias: &str) -> MessageInfo {
    MessageInfo { sender: Addr::unchecked(addr(alias)), funds: vec![] }
}
/// coins attached to a request
fn paid(sender: &str, e: &Value) -> MessageInfo {
    let funds = e.get("funds").map_or(vec![], |f| {
        arr(f).iter().map(|c| cosmwasm_std::coin(s(&c["amount"]).parse().expect("harness: funds"), s(&c["denom"]))).collect()
    });
    MessageInfo { funds, ..info(sender) }
}
fn nul(v: &Value, f: impl Fn(&Value) -> Option<Value>) -> Option<Value> {
    if v.is_null() {
        Some(json!([]))
    } else {
        Some(json!([f(v)?]))
    }
}
fn parse_expiry(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    let (k, x) = o.iter().next()?;
    Some(match k.as_str() {
        "at_height" => json!({"k":"height","n":limbs(x.as_u64()?)}),
        "at_time" => json!({"k":"time","n":limbs(x.as_str()?.parse().ok()?)}),
        "never" => json!({"k":"never","n":[0,0,0]}),
        _ => return None,
    })
}
fn real_expiry(v: &Value) -> Value {
    match s(&v["k"]) {
        "height" => json!({"at_height":unlimbs(&v["n"])}),
        "time" => json!({"at_time":unlimbs(&v["n"]).to_string()}),
        _ => json!({"never":{}}),
    }
}
pub fn real_inst(e: &Value) -> Value {
    let nulls = e.get("jf").is_some_and(|x| x == "null");
    let mut m = json!({"channel_open_init_options": with_nulls(real_options(&e["opts"]), nulls)});
    for (f, x) in [("owner", &e["owner"]), ("send_callbacks_to", &e["cb"])] {
        match opt(x) {
            Some(o) => m[f] = json!(addr(s(o))),
            None if nulls => m[f] = Value::Null,
            None => {}
        }
    }
    m
}
/// optional fields given as null instead of being left out
fn with_nulls(mut o: Value, nulls: bool) -> Value {
    if nulls {
        for f in ["counterparty_port_id", "channel_ordering"] {
            if o.get(f).is_none() {
                o[f] = Value::Null;
            }
        }
    }
    o
}
pub fn real_exec(m: &Value) -> Value {
    let nulls = m.get("jf").is_some_and(|x| x == "null");
    match s(&m["k"]) {
        "create" => match opt(&m["opts"]) {
            Some(o) => json!({"create_channel":{"channel_open_init_options":with_nulls(real_options(o), nulls)}}),
            None if nulls => json!({"create_channel":{"channel_open_init_options":null}}),
            None => json!({"create_channel":{}}),
        },
        "close" => json!({"close_channel":{}}),
        "send" => {
            let mut o = json!({"messages": arr(&m["msgs"]).iter().map(real_msg).collect::<Vec<_>>()});
            let jf = m.get("jf").map_or("", |x| s(x));
            let qs: Vec<Value> = arr(&m["qs"]).iter().map(real_query).collect();
            if qs.is_empty() {
                match jf {
                    "null" => o["queries"] = Value::Null,
                    "empty" => o["queries"] = json!([]),
                    _ => {}
                }
                if jf == "null" && arr(&m["msgs"]).is_empty() {
                    o["messages"] = Value::Null;
                }
            } else {
                o["queries"] = json!(qs);
            }
            match opt(&m["memo"]) {
                Some(x) => o["packet_memo"] = x.clone(),
                None if jf == "null" => o["packet_memo"] = Value::Null,
                None => {}
            }
            match opt(&m["tmo"]) {
                Some(x) => o["timeout_seconds"] = json!(unlimbs(x)),
                None if jf == "null" => o["timeout_seconds"] = Value::Null,
                None => {}
            }
            json!({"send_cosmos_msgs":o})
        }
        "setcb" => match opt(&m["a"]) {
            Some(a) => json!({"update_callback_address":{"callback_address":addr(s(a))}}),
            None if nulls => json!({"update_callback_address":{"callback_address":null}}),
            None => json!({"update_callback_address":{}}),
        },
        "xfer" => {
            let mut o = json!({"new_owner":addr(s(&m["to"]))});
            match opt(&m["exp"]) {
                Some(x) => o["expiry"] = real_expiry(x),
                None if nulls => o["expiry"] = Value::Null,
                None => {}
            }
            json!({"update_ownership":{"transfer_ownership":o}})
        }
        "accept" => json!({"update_ownership":"accept_ownership"}),
        "renounce" => json!({"update_ownership":"renounce_ownership"}),
        k => panic!("harness: exec {k}"),
    }
}
pub fn order_of(x: &str) -> &'static str {
    match x {
        "ORDER_ORDERED" => "ORDER_ORDERED",
        "ORDER_UNORDERED" => "ORDER_UNORDERED",
        _ => panic!("harness: order {x}"),
    }
}
fn real_channel(c: &Chan) -> IbcChannel {
    IbcChannel::new(
        IbcEndpoint { port_id: c.port.clone(), channel_id: c.id.clone() },
        IbcEndpoint { port_id: c.cport.clone(), channel_id: c.cchan.clone() },
        if c.order == "ORDER_ORDERED" { IbcOrder::Ordered } else { IbcOrder::Unordered },
        c.ver.clone(),
        c.conn.clone(),
    )
}
fn real_packet(p: &Pkt, c: &Chan) -> IbcPacket {
    let t = match (p.th, p.ts) {
        (Some((revision, height)), Some(t)) => IbcTimeout::with_both(IbcTimeoutBlock { revision, height }, Timestamp::from_nanos(t)),
        (Some((revision, height)), None) => IbcTimeout::with_block(IbcTimeoutBlock { revision, height }),
        (None, t) => IbcTimeout::with_timestamp(Timestamp::from_nanos(t.unwrap_or(0))),
    };
    IbcPacket::new(
        p.data.clone(),
        IbcEndpoint { port_id: c.port.clone(), channel_id: c.id.clone() },
        IbcEndpoint { port_id: c.cport.clone(), channel_id: c.cchan.clone() },
        p.seq,
        t,
    )
}
/// alters the channel description handed to the contract
fn tamper(c: &mut Chan, t: &Value) {
    let Some(t) = t.as_object() else { return };
    for (k, v) in t {
        match k.as_str() {
            "id" => c.id = s(v).into(),
            "port" => c.port = port_of(s(v)),
            "cport" => c.cport = s(v).into(),
            "cchan" => c.cchan = s(v).into(),
            "conn" => c.conn = s(v).into(),
            "order" => c.order = order_of(s(v)),
            "ver" => c.ver = render_version(v),
            "force" | "none" => {}
            k => panic!("harness: tamper {k}"),
        }
    }
}
