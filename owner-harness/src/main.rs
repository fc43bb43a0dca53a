//! The sample owner contract in a chain stand-in: it creates controllers (stand-ins that accept or
//! refuse), sends actions through them and receives their callbacks.
#[allow(dead_code)]
#[path = "../../harness/src/conv.rs"]
mod conv;
#[allow(dead_code)]
#[path = "../../harness/src/proto.rs"]
mod proto;
#[allow(dead_code)]
#[path = "../../harness/src/forest.rs"]
mod forest;
use conv::*;
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier};
use cosmwasm_std::{
    instantiate2_address, to_json_binary, Addr, Api, Checksum, CodeInfoResponse, ContractResult, CosmosMsg, DepsMut, Empty, Env, MessageInfo,
    Order, QuerierResult, QuerierWrapper, Record, ReplyOn, Response, Storage, SystemError, SystemResult, Timestamp, WasmMsg, WasmQuery,
};
use forest::{Forest, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type R<T> = Result<T, String>;
fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
#[derive(Clone, Default)]
struct Store(BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!value.is_empty(), "empty value");
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let (lo, hi) = (start.map(<[u8]>::to_vec), end.map(<[u8]>::to_vec));
        let v: Vec<Record> = self
            .0
            .iter()
            .filter(|(k, _)| lo.as_ref().map_or(true, |l| *k >= l) && hi.as_ref().map_or(true, |h| *k < h))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        match order {
            Order::Ascending => Box::new(v.into_iter()),
            Order::Descending => Box::new(v.into_iter().rev()),
        }
    }
}
const CODES: &[u64] = &[7, 8];
fn checksum(code: u64) -> Checksum {
    Checksum::generate(&code.to_be_bytes())
}
fn codes(q: &WasmQuery) -> QuerierResult {
    match q {
        WasmQuery::CodeInfo { code_id } if CODES.contains(code_id) => {
            let r = CodeInfoResponse::new(*code_id, Addr::unchecked(addr("deployer")), checksum(*code_id));
            SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
        }
        WasmQuery::CodeInfo { code_id } => SystemResult::Err(SystemError::NoSuchCode { code_id: *code_id }),
        _ => SystemResult::Err(SystemError::Unknown {}),
    }
}
/// the address the chain gives to a contract made with instantiate2 by `creator`
fn derived(creator: &str, code: u64, salt: &[u8]) -> R<String> {
    let api = MockApi::default();
    let c = api.addr_canonicalize(&addr(creator)).map_err(es)?;
    Ok(api.addr_humanize(&instantiate2_address(checksum(code).as_slice(), &c, salt).map_err(es)?).map_err(es)?.to_string())
}
/// alias "ica:<code>:<salt>" <-> address
fn addr2(a: &str) -> String {
    if let Some(x) = a.strip_prefix("ica:") {
        let (c, salt) = x.split_once(':').expect("harness: alias");
        return derived("self", c.parse().unwrap(), salt.as_bytes()).expect("harness: derived");
    }
    addr(a)
}

#[derive(Clone)]
struct World {
    exists: bool,
    store: Store,
    /// controllers that exist on the chain: alias -> address
    known: Vec<(String, String)>,
    time: u64,
}
/// the sender of a request and the coins attached to it
fn info(e: &Value) -> MessageInfo {
    let funds = if e.get("paid").is_some() { cosmwasm_std::coins(5, "stake") } else { vec![] };
    MessageInfo { sender: Addr::unchecked(addr2(s(&e["sender"]))), funds }
}
macro_rules! deps {
    ($st:expr, $api:ident, $q:ident) => {
        DepsMut { storage: $st, api: &$api, querier: QuerierWrapper::<Empty>::new(&$q) }
    };
}
fn querier() -> MockQuerier<Empty> {
    let mut q: MockQuerier<Empty> = MockQuerier::new(&[]);
    q.update_wasm(codes);
    q
}
impl World {
    fn new() -> Self {
        World { exists: false, store: Store::default(), known: vec![], time: 1_700_000_000_000_000_000 }
    }
    fn env(&self) -> Env {
        let mut e = mock_env();
        e.block.time = Timestamp::from_nanos(self.time);
        e.contract.address = Addr::unchecked(addr("self"));
        e
    }
    fn al(&self, a: &str) -> String {
        self.known.iter().find(|k| k.1 == a).map_or_else(|| al(a), |k| k.0.clone())
    }
    fn query(&self, m: Value) -> R<Value> {
        let api = MockApi::default();
        let q = querier();
        let deps = cosmwasm_std::Deps { storage: &self.store, api: &api, querier: QuerierWrapper::<Empty>::new(&q) };
        let b = catch_unwind(AssertUnwindSafe(|| -> R<_> {
            let m = cosmwasm_std::from_json(serde_json::to_vec(&m).unwrap()).map_err(es)?;
            cw_ica_owner::contract::query(deps, self.env(), m).map_err(es)
        }))
        .map_err(|_| "panic".to_string())??;
        serde_json::from_slice(&b).map_err(es)
    }
    fn observe(&self) -> Value {
        if !self.exists {
            return json!({"exists":"f"});
        }
        let st = self.query(json!({"get_contract_state":{}})).unwrap_or(json!({}));
        // unset until the first controller exists
        let n = self.query(json!({"get_ica_count":{}})).ok().and_then(|v| v.as_u64()).unwrap_or(0);
        let one = |i: u64| -> Value {
            let Ok(v) = self.query(json!({"get_ica_contract_state":{"ica_id":i}})) else { return json!({"unreadable":"t"}) };
            let ica = &v["ica_state"];
            let ica = if ica.is_null() {
                json!([])
            } else {
                let ch = parse_channel(&ica["channel_state"]["channel"]).unwrap_or(json!({"unreadable":"t"}));
                json!([{"id":ica["ica_id"].to_string(),"addr":ica["ica_addr"].as_str().unwrap_or_default(),"enc":ica["tx_encoding"].as_str().unwrap_or_default(),
                    "ch":ch,"st":ica["channel_state"]["channel_status"].as_str().unwrap_or_default()}])
            };
            json!({"addr":self.al(v["contract_addr"].as_str().unwrap_or("")),"ica":ica})
        };
        let n2 = n.min(200);
        // the entry after the last one must not exist
        let beyond = self.query(json!({"get_ica_contract_state":{"ica_id":n}})).is_ok();
        json!({"exists":"t","admin":st["admin"].as_str().map(|a| self.al(a)).unwrap_or_default(),
            "code":st["ica_controller_code_id"].to_string(),"icas":(0..n2).map(one).collect::<Vec<_>>(),
            "n":n.to_string(),"beyond":if beyond {"t"} else {"f"}})
    }
    fn step(&mut self, e: &Value) -> (Value, Value) {
        let snap = self.clone();
        let mut eff = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| self.run(e, &mut eff)));
        let (ok, why) = match r {
            Ok(Ok(())) => (true, String::new()),
            Ok(Err(x)) => (false, x),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default();
                assert!(!m.starts_with("harness"), "{m}");
                (false, format!("panic {m}"))
            }
        };
        let mut e = e.clone();
        if s(&e["op"]) == "create" && opt(&e["salt"]).is_none() {
            // the default salt is the contract's choice
            e["dsalt"] = eff.iter().find(|x: &&Value| x["k"] == "inst2").map_or(json!([]), |x| json!([x["salt"]]));
        }
        if !ok {
            *self = snap;
            eff = vec![];
        }
        let mut why = why;
        why.retain(|c| c.is_ascii() && c != '"' && c != '\\' && !c.is_control());
        why.truncate(160);
        let mut o = json!({"ok":if ok {"t"} else {"f"},"eff":eff,"st":self.observe(),"known":self.known.iter().map(|k| k.0.clone()).collect::<Vec<_>>(),
            "time":limbs(self.time),"why":why});
        if s(&e["op"]) == "cb" {
            o["recovers"] = json!(recovers(&json!({"receive_ica_callback":real_callback(&e["m"])})));
        }
        (e, o)
    }
    fn run(&mut self, e: &Value, eff: &mut Vec<Value>) -> R<()> {
        let api = MockApi::default();
        let q = querier();
        let env = self.env();
        match s(&e["op"]) {
            "tick" => {
                self.time += unlimbs(&e["dt"]);
                Ok(())
            }
            "inst" => {
                let mut m = json!({"ica_controller_code_id":num(&e["code"])});
                if let Some(a) = opt(&e["admin"]) {
                    m["admin"] = json!(addr(s(a)));
                }
                let m = cosmwasm_std::from_json(serde_json::to_vec(&m).unwrap()).map_err(es)?;
                let r = cw_ica_owner::contract::instantiate(deps!(&mut self.store, api, q), env, info(e), m).map_err(es)?;
                self.exists = true;
                self.response(e, r, eff)
            }
            op => {
                if !self.exists {
                    return Err("no contract".into());
                }
                let m = match op {
                    "create" => {
                        let mut m = json!({"channel_open_init_options":real_options(&e["opts"])});
                        if let Some(x) = opt(&e["salt"]) {
                            m["salt"] = x.clone();
                        }
                        json!({"create_ica_contract":m})
                    }
                    "act" => json!({"send_predefined_action":{"ica_id":num(&e["id"]),"to_address":e["to"]}}),
                    "cb" => json!({"receive_ica_callback":real_callback(&e["m"])}),
                    _ => panic!("harness: op {op}"),
                };
                let m = cosmwasm_std::from_json(serde_json::to_vec(&m).unwrap()).map_err(es)?;
                let r = cw_ica_owner::contract::execute(deps!(&mut self.store, api, q), env, info(e), m).map_err(es)?;
                self.response(e, r, eff)
            }
        }
    }
    fn response(&mut self, e: &Value, r: Response, eff: &mut Vec<Value>) -> R<()> {
        for m in r.messages {
            let silent = m.reply_on != ReplyOn::Never;
            if silent {
                // the sample contract has no reply entry point
                return Err("chain: reply to a contract without reply".into());
            }
            match m.msg {
                CosmosMsg::Wasm(WasmMsg::Instantiate2 { code_id, msg, funds, salt, admin, .. }) => {
                    let v: Value = serde_json::from_slice(&msg).unwrap_or(Value::Null);
                    let salt_text = String::from_utf8_lossy(&salt).to_string();
                    let o = |x: &Value| x.as_str().map_or(json!([]), |a| json!([self.al(a)]));
                    let oo = |x: &Value| if x.is_null() { json!([]) } else { json!([x]) };
                    let op = &v["channel_open_init_options"];
                    eff.push(json!({"k":"inst2","code":code_id.to_string(),"salt":salt_text,"funds":funds.len().to_string(),"admin":admin.as_ref().map_or(json!([]), |a| json!([self.al(a)])),"owner":o(&v["owner"]),"cb":o(&v["send_callbacks_to"]),
                        "opts":{"conn":op["connection_id"],"cconn":op["counterparty_connection_id"],"cport":oo(&op["counterparty_port_id"]),"ord":oo(&op["channel_ordering"])}}));
                    if e.get("ctl") == Some(&json!("refuse")) {
                        return Err("the controller refuses".into());
                    }
                    let a = derived("self", code_id, &salt)?;
                    if !CODES.contains(&code_id) || self.known.iter().any(|k| k.1 == a) {
                        return Err("chain: duplicate address".into());
                    }
                    self.known.push((format!("ica:{code_id}:{salt_text}"), a));
                }
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    let v: Value = serde_json::from_slice(&msg).unwrap_or(Value::Null);
                    let c = &v["send_cosmos_msgs"];
                    let b = &c["messages"][0]["bank"]["send"];
                    let plain = v.as_object().is_some_and(|o| o.len() == 1) && c["messages"].as_array().is_some_and(|a| a.len() == 1) && c["packet_memo"].is_null() && c["timeout_seconds"].is_null()
                        && (c["queries"].is_null() || c["queries"] == json!([]));
                    eff.push(json!({"k":"exec","to":self.al(&contract_addr),"funds":funds.len().to_string(),"plain":if plain {"t"} else {"f"},
                        "bank_to":b["to_address"].as_str().unwrap_or("?"),
                        "amount":b["amount"].as_array().map(|a| a.iter().map(|c| json!({"denom":c["denom"],"amount":c["amount"]})).collect::<Vec<_>>()).unwrap_or_default()}));
                    if e.get("ctl") == Some(&json!("refuse")) {
                        return Err("the controller refuses".into());
                    }
                }
                o => eff.push(json!({"k":"other","m":format!("{o:?}").chars().take(60).filter(char::is_ascii).collect::<String>()})),
            }
        }
        Ok(())
    }
}
/// A receiver built with the macro in a crate without the optional features.
#[local_derive::ica_callback_execute]
#[cosmwasm_schema::cw_serde]
enum ReceiverMsg {
    Ping {},
}
/// "t" if a macro-built receiver reads the callback and recovers what it has a field for
fn recovers(m: &Value) -> &'static str {
    let bytes = serde_json::to_vec(m).unwrap();
    let Ok(ReceiverMsg::ReceiveIcaCallback(inner)) = cosmwasm_std::from_json(&bytes) else { return "f" };
    let mut want = m["receive_ica_callback"].clone();
    if let Some(a) = want.get_mut("on_acknowledgement_packet_callback") {
        a.as_object_mut().unwrap().remove("query_result");
    }
    let Ok(got) = cosmwasm_std::to_json_vec(&inner) else { return "f" };
    let mut got: Value = serde_json::from_slice(&got).unwrap_or(Value::Null);
    if let Some(a) = got.get_mut("on_acknowledgement_packet_callback").and_then(Value::as_object_mut) {
        a.remove("query_result");
    }
    if got == want { "t" } else { "f" }
}
/// the callback as a controller (with all features) sends it
fn real_callback(m: &Value) -> Value {
    let of = |k: &str, d: Value| m.get(k).cloned().unwrap_or(d);
    let pkt = json!({"data":"eyJ9","src":{"port_id":port_of("wasm.self"),"channel_id":of("chan", json!("channel-0"))},"dest":{"port_id":"icahost","channel_id":of("cchan", json!("channel-5"))},
        "sequence":of("seq", json!(3)),"timeout":{"block":null,"timestamp":"1700000600000000000"}});
    match s(&m["k"]) {
        "open" => {
            let c = &m["ch"];
            json!({"on_channel_open_ack_callback":{"channel":{"endpoint":{"port_id":port_of(s(&c["port"])),"channel_id":c["id"]},
                "counterparty_endpoint":{"port_id":c["cport"],"channel_id":c["cchan"]},"order":c["order"],"version":render_version(&c["ver"]),"connection_id":c["conn"]},
                "ica_address":m["ica"],"tx_encoding":m["enc"]}})
        }
        "ack" => {
            let mut a = json!({"ica_acknowledgement":if s(&m["r"]) == "result" { json!({"result":"AQ=="}) } else { json!({"error":of("err", json!("x"))}) },
                "original_packet":pkt,"relayer":addr("relayer")});
            match s(&m["q"]) {
                "err" => a["query_result"] = json!({"error":"e"}),
                "ok" => a["query_result"] = json!({"success":{"height":5,"responses":[{"stargate":{"data":"AQ==","path":"/x"}}]}}),
                _ => {}
            }
            json!({"on_acknowledgement_packet_callback":a})
        }
        "timeout" => json!({"on_timeout_packet_callback":{"original_packet":pkt,"relayer":addr("relayer")}}),
        k => panic!("harness: callback {k}"),
    }
}

// ---------------------------------------------------------------- random histories
const PEOPLE: &[&str] = &["owner", "alice", "bob", "deployer", "self", "relayer"];
fn options(r: &mut Rng) -> Value {
    json!({"conn":r.pick(&["connection-0", "connection-1"]),"cconn":r.pick(&["connection-7", "connection-42"]),"cport":r.o(40, json!("icahost")),
        "ord":match r.below(3) { 0 => json!([]), 1 => json!(["ORDER_ORDERED"]), _ => json!(["ORDER_UNORDERED"]) }})
}
fn root(r: &mut Rng) -> Value {
    let admin = r.pick(&["owner", "alice", "owner", "UPPER:alice", "bad addr"]);
    json!({"op":"inst","sender":r.pick(&["deployer", "owner"]),"admin":r.o(60, json!(admin)),"code":r.pick(&["7", "8", "8", "7", "9"])})
}
fn event(r: &mut Rng, w: &World, bias: usize) -> Value {
    let admin = w.query(json!({"get_contract_state":{}})).ok().and_then(|v| v["admin"].as_str().map(|a| w.al(a))).unwrap_or_else(|| "owner".into());
    let code = w.query(json!({"get_contract_state":{}})).ok().map_or_else(|| "7".into(), |v| v["ica_controller_code_id"].to_string());
    let one_of = |r: &mut Rng| -> Option<String> { (!w.known.is_empty()).then(|| w.known[r.below(w.known.len())].0.clone()) };
    // mostly the admin; others include the controllers, existing and not
    let by = |r: &mut Rng| -> String {
        match r.below(20) {
            0..=14 => admin.clone(),
            15 | 16 => one_of(r).unwrap_or_else(|| "alice".into()),
            17 => format!("ica:{code}:{}", r.pick(&["a", "b", "zz"])),
            _ => r.pick(PEOPLE).to_string(),
        }
    };
    let ctl = |r: &mut Rng| if r.pct(8) { "refuse" } else { "accept" };
    let mut e = match if r.pct(35) { bias } else { r.below(10) } {
        0..=2 => {
            let long = "s".repeat(*r.pick(&[&64usize, &65, &63]));
            let some = format!("salt-{}", r.below(60));
            let salt = r.pick(&["a", "b", "c", "d", "1700000000", "", long.as_str(), " padded ", "caf\u{e9}", some.as_str(), some.as_str(), some.as_str(), some.as_str()]).to_string();
            json!({"op":"create","sender":by(r),"salt":r.o(80, json!(salt)),"opts":options(r),"ctl":ctl(r)})
        }
        3 | 4 => {
            let n = w.known.len();
            let id = if n > 0 && r.pct(88) { r.below(n) } else { n + r.below(2) };
            json!({"op":"act","sender":by(r),"id":id.to_string(),"to":r.pick(&["cosmos1recipient", "", "osmo1x", "caf\u{e9} x", " padded "]),"ctl":ctl(r)})
        }
        5..=8 => {
            let sender = match r.below(10) {
                0..=6 => one_of(r).unwrap_or_else(|| "bob".into()),
                // a controller made from the same code by the same rules that does not exist (yet), or from the other code
                7 => format!("ica:{}:{}", if r.pct(70) { code.as_str() } else { "8" }, r.pick(&["a", "b", "zz"])),
                8 => admin.clone(),
                _ => r.pick(PEOPLE).to_string(),
            };
            let chan = format!("channel-{}", r.below(12));
            let cchan = format!("channel-{}", r.below(12));
            let m = match r.below(6) {
                0 => json!({"k":"ack","r":r.pick(&["result", "error"]),"q":r.pick(&["none", "err", "ok"]),"chan":chan,"cchan":cchan,"seq":r.below(4) + 1,"err":r.pick(&["", "x", "channel closed", "timeout"])}),
                1 => json!({"k":"timeout","chan":chan,"cchan":cchan,"seq":r.below(4) + 1}),
                _ => {
                    let long = "a".repeat(128);
                    let ica = r.pick(&["cosmos1ica", "osmo1other", "A1", "cosmos1ica", long.as_str()]).to_string();
                    let enc = if r.pct(85) { "proto3" } else { "proto3json" };
                    let (conn, host) = (r.pick(&["connection-0", "connection-1"]).to_string(), r.pick(&["connection-7", "connection-42"]).to_string());
                    json!({"k":"open","ica":ica,"enc":enc,"ch":{"id":chan,"port":"wasm.self","cport":"icahost",
                        "cchan":cchan,"order":r.pick(&["ORDER_ORDERED", "ORDER_UNORDERED"]),"conn":conn,
                        "ver":{"k":"md","fmt":"std","ver":"ics27-1","cc":conn,"hc":host,"addr":ica,"enc":enc,"tx":"sdk_multi_msg"}}})
                }
            };
            json!({"op":"cb","sender":sender,"m":m})
        }
        _ => json!({"op":"tick","dt":limbs(*r.pick(&[&1u64, &1_000_000_000, &5_000_000_000]))}),
    };
    if s(&e["op"]) != "tick" && r.pct(10) {
        e["paid"] = json!("t");
    }
    e
}

fn main() {
    forest::main_with(|a: &forest::Args, f: &mut Forest| {
        for (evs, t) in &a.scripts {
            fn go(f: &mut Forest, evs: &[Value], t: &forest::Trie, w: &World, par: i64) {
                for (i, sub) in &t.0 {
                    let mut w2 = w.clone();
                    let (e, o) = w2.step(&evs[*i]);
                    let id = f.add(par, "spec", e, o);
                    go(f, evs, sub, &w2, id);
                }
            }
            go(f, evs, t, &World::new(), -1);
        }
        if let Some(evs) = &a.replay {
            let mut w = World::new();
            let mut par = -1;
            for e in evs {
                let (e, o) = w.step(e);
                par = f.add(par, "replay", e, o);
            }
        }
        for (p, chains, len) in &a.random {
            for c in 0..*chains {
                let mut r = forest::rng_for(a.seed, p, c);
                let mut w = World::new();
                let (e, o) = w.step(&root(&mut r));
                let mut par = f.add(-1, "random", e, o);
                if !w.exists {
                    continue;
                }
                // every history prefers one kind of event
                let bias = r.below(9);
                for _ in 0..*len {
                    let e = event(&mut r, &w, bias);
                    let (e, o) = w.step(&e);
                    par = f.add(par, "random", e, o);
                }
            }
        }
        "true".into()
    });
}
