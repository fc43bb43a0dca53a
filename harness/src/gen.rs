//! Seeded random histories.  The generator looks at the chain state only to pick applicable
//! events; what the contract must do with them is decided by the TLA+ specification.
use crate::conv::*;
pub use crate::forest::Rng;
use crate::world::World;
use serde_json::{json, Value};

/// knobs (percentages) and operation weights
#[derive(Clone)]
pub struct Profile {
    pub w: Vec<(&'static str, u32)>,
    pub tamper: u64,
    pub badmd: u64,
    pub unsup: u64,
    pub queries: u64,
    pub badresp: u64,
    pub cbfail: u64,
    pub badinst: u64,
    pub unordered: u64,
    pub maxmsgs: usize,
    pub legacy: u64,
    pub ctr: u64,
    /// the callback contract calls back into the controller
    pub reent: u64,
    /// finish with: close, create, complete, send, acknowledge
    pub probe: bool,
    /// requests built with the integration helpers
    pub via: u64,
    /// error acknowledgements
    pub errs: u64,
    /// long histories only
    pub long: bool,
    /// optional fields are often given as null
    pub intoform: bool,
}
pub fn profile(p: &str) -> Profile {
    let mut r = Profile {
        w: vec![
            ("send", 22), ("create", 8), ("close", 4), ("setcb", 4), ("xfer", 3), ("accept", 3), ("renounce", 1),
            ("intruder", 6), ("r_open_init", 3), ("open_ack", 14), ("open_confirm", 1), ("open_try", 1), ("recv", 1),
            ("r_close_init", 2), ("close_confirm", 4), ("ack", 16), ("timeout", 6), ("tick", 3), ("migrate", 1), ("admin", 0), ("hquery", 0), ("again", 0), ("garbled", 0),
        ],
        tamper: 6, badmd: 12, unsup: 5, queries: 40, badresp: 8, cbfail: 8, badinst: 6, unordered: 40, maxmsgs: 3, legacy: 4, ctr: 20, reent: 4, probe: false, via: 0, errs: 22, long: false, intoform: false,
    };
    let set = |r: &mut Profile, l: &[(&'static str, u32)]| {
        for (k, v) in l {
            r.w.iter_mut().find(|(x, _)| x == k).expect("harness: weight").1 = *v;
        }
    };
    match p {
        "auth" => set(&mut r, &[("intruder", 40), ("xfer", 8), ("accept", 8)]),
        "own" => {
            set(&mut r, &[("intruder", 10), ("xfer", 26), ("accept", 22), ("renounce", 8), ("tick", 16), ("migrate", 3)]);
        }
        "init" => {
            set(&mut r, &[("r_open_init", 16), ("create", 18), ("close", 8), ("open_ack", 16)]);
            r.tamper = 12;
        }
        "close" => {
            set(&mut r, &[("close", 14), ("close_confirm", 18), ("r_close_init", 14), ("create", 14), ("open_ack", 16)]);
            r.tamper = 25;
        }
        "active" | "status" => {
            set(&mut r, &[("create", 18), ("open_ack", 24), ("close", 8), ("close_confirm", 8), ("timeout", 14), ("migrate", 2)]);
            r.badmd = 5;
        }
        "meta" => {
            set(&mut r, &[("create", 22), ("open_ack", 30), ("close", 8), ("close_confirm", 6)]);
            r.badmd = 55;
            r.tamper = 45;
            r.badinst = 20;
        }
        "ica" => {
            set(&mut r, &[("create", 14), ("open_ack", 24), ("close", 8), ("timeout", 10), ("migrate", 4)]);
            r.badmd = 25;
        }
        "propose" => {
            set(&mut r, &[("create", 36), ("open_ack", 18), ("close", 12), ("close_confirm", 8)]);
            r.tamper = 25;
            r.badmd = 5;
        }
        "send" => {
            set(&mut r, &[("send", 50), ("tick", 8)]);
            r.maxmsgs = 5;
            r.unsup = 2;
        }
        "msgs" => {
            set(&mut r, &[("send", 70), ("ack", 8), ("timeout", 1)]);
            r.maxmsgs = 6;
            r.queries = 10;
            r.unsup = 0;
        }
        "query" => {
            set(&mut r, &[("send", 34), ("ack", 34), ("timeout", 8), ("create", 8), ("open_ack", 12)]);
            r.queries = 65;
            r.unordered = 60;
            r.badresp = 15;
        }
        "qconv" => {
            set(&mut r, &[("send", 34), ("ack", 36), ("timeout", 2), ("close", 1), ("close_confirm", 1)]);
            r.queries = 95;
            r.badresp = 10;
            r.unsup = 0;
        }
        "cb" => {
            set(&mut r, &[("setcb", 16), ("ack", 26), ("timeout", 14), ("open_ack", 16)]);
            r.cbfail = 3;
            r.legacy = 16;
        }
        "veto" => {
            set(&mut r, &[("ack", 26), ("timeout", 16), ("open_ack", 20)]);
            r.cbfail = 45;
            r.badresp = 3;
        }
        "events" => set(&mut r, &[("ack", 36), ("setcb", 8)]),
        "avail" => {
            set(&mut r, &[("ack", 20), ("timeout", 20), ("close", 8), ("close_confirm", 10), ("create", 14), ("open_ack", 18), ("intruder", 1)]);
            r.badmd = 3;
            r.tamper = 2;
            r.unsup = 8;
            r.probe = true;
        }
        "migrate" => {
            set(&mut r, &[("migrate", 28), ("create", 8)]);
            r.legacy = 45;
        }
        "role" => set(&mut r, &[("open_confirm", 14), ("open_try", 14), ("recv", 14)]),
        "inst" => {
            r.badinst = 45;
        }
        "ctr" => {
            set(&mut r, &[("ack", 30), ("timeout", 16), ("setcb", 6), ("again", 8)]);
            r.ctr = 85;
            r.cbfail = 3;
        }
        "help" => {
            set(&mut r, &[("admin", 6), ("hquery", 16), ("migrate", 10), ("create", 12), ("setcb", 8), ("xfer", 6), ("accept", 6)]);
            r.via = 75;
            r.badinst = 15;
            r.maxmsgs = 3;
        }
        "store" => {
            set(&mut r, &[("ack", 30), ("timeout", 14), ("xfer", 6), ("setcb", 6), ("migrate", 3)]);
            r.queries = 80;
            r.long = true;
        }
        "form" => {
            set(&mut r, &[("garbled", 70), ("create", 12), ("setcb", 10), ("xfer", 10), ("ack", 8), ("close_confirm", 6)]);
            r.intoform = true;
        }
        "unsup" => {
            set(&mut r, &[("send", 45), ("ack", 20)]);
            r.unsup = 45;
            r.queries = 50;
        }
        _ => {}
    }
    r
}

const CONNS: &[&str] = &["connection-0", "connection-1", "connection-0", "connection-1", "connection-2", "connection-10", "connection-12"];
fn conn(r: &mut Rng) -> &'static str {
    if r.pct(5) {
        r.pick(&["connection-18446744073709551615", "connection-4294967296", "connection-4294967297", "connection-01", "connection-100", "connection-9007199254740993"])
    } else {
        r.pick(CONNS)
    }
}
const PEOPLE: &[&str] = &["owner", "alice", "bob", "carol"];

pub fn options(r: &mut Rng, p: &Profile) -> Value {
    let bad = r.pct(6);
    json!({"conn": if bad && r.pct(50) {"connection-99"} else { conn(r) },
        "cconn": if r.pct(92) { r.pick(&["connection-0", "connection-7", "connection-42"]) } else {
            r.pick(&["", "connection-7\"", "\",\"address\":\"cosmos1x", "connection\\7", "07-tendermint-3", " connection-7", "connection-18446744073709551615", "{}", "caf\u{e9}", "connection-7/../0", "CONNECTION-7"]) },
        "cport": if bad || r.pct(6) { json!([r.pick(&["transfer", "icahost2", "", "icahost-1", "icahos", " icahost", "icaHost", "icahost", "ICAHOST"])]) } else { r.o(50, json!("icahost")) },
        "ord": match r.below(3) { 0 => json!([]), 1 => json!(["ORDER_ORDERED"]), _ => if r.pct(p.unordered + 30) { json!(["ORDER_UNORDERED"]) } else { json!([]) } }})
}

const CODES: &[&str] = &["7", "8", "7", "8", "18446744073709551615", "9"];
fn via_inst(r: &mut Rng, p: &Profile, mut e: Value) -> Value {
    if s(&e["op"]) == "inst" && r.pct(p.via) {
        let long = "s".repeat(*r.pick(&[&64usize, &65, &63]));
        e["via"] = json!({"t":r.pick(&["inst", "inst2", "inst2"]),"code":r.pick(CODES),"label":r.pick(&["label", "", "icacontroller-1", "a \"q\"", " padded ", "Upper"]),
            "admin":if r.pct(60) { json!([r.pick(&["owner", "alice", "anything", "bob", "", "deployer", "deployer", "ADMIN", " Padded "])]) } else { json!([]) },
            "salt":r.pick(&["salt", "1700000000", "", long.as_str(), "a b", "0", " salt", "salt ", "SALT", "s\u{e9}l"])});
    }
    e
}
pub fn root(r: &mut Rng, p: &Profile) -> Value {
    let e = root0(r, p);
    via_inst(r, p, e)
}
fn root0(r: &mut Rng, p: &Profile) -> Value {
    if r.pct(p.legacy) {
        return legacy_root(r);
    }
    let bad = r.pct(p.badinst);
    let owner = if bad && r.pct(40) { json!([r.pick(&["UPPER:alice", "bad addr", "", "TRUNC:alice", "PAD:alice", "LPAD:owner"])]) } else if r.pct(40) { json!([]) } else { json!([r.pick(&["owner", "alice"])]) };
    let cb = if bad && r.pct(40) {
        json!([r.pick(&["UPPER:cbk", "nonsense", "TRUNC:cbk", "", "PAD:cbk", "LPAD:cbk"])])
    } else if r.pct(p.ctr) {
        json!(["ctr"])
    } else if r.pct(25) {
        json!([])
    } else {
        json!([r.pick(&["cbk", "cbk2", "owner", "alice"])])
    };
    let mut opts = options(r, p);
    if !bad {
        opts["conn"] = json!(conn(r));
        if opt(&opts["cport"]).is_some() && r.pct(40) {
            opts["cport"] = json!(["icahost"]);
        }
    }
    let env = chain_env(r);
    // a chain that knows the host's port by another name than the owner
    let tam = if !bad && other_port(&opts) && r.pct(80) { json!({"cport":"icahost"}) } else { json!({}) };
    let mut e = json!({"op":"inst","sender":r.pick(&["deployer", "owner", "bob"]),"owner":owner,"cb":cb,"opts":opts,"tam":tam,"env":env});
    if r.pct(6) {
        e["funds"] = attached(r);
    }
    if r.pct(if p.intoform { 50 } else { 6 }) {
        e["jf"] = json!("null");
    }
    e
}
fn other_port(opts: &Value) -> bool {
    opt(&opts["cport"]).is_some_and(|p| s(p) != "icahost")
}
fn chain_env(r: &mut Rng) -> Value {
    let base = r.pick(&[&0u64, &7, &99, &12345]);
    let ids: Vec<String> = (0..16u64).map(|i| format!("channel-{}", base + i * if *base == 7 { 3 } else { 1 })).collect();
    let seq0 = if r.pct(80) { 1u64 } else { *r.pick(&[&9, &255, &4_294_967_295, &9_007_199_254_740_993]) };
    let t0 = *r.pick(&[&1_700_000_000_000_000_000u64, &1_700_000_000_123_456_789, &1_571_797_419_879_305_533, &1_999_999_999_999_999_999]);
    // ids of which one is a prefix of the next
    let ids = if r.pct(12) { (0..16).map(|i| format!("channel-{}", "1".repeat(i + 1))).collect() } else { ids };
    let step = if r.pct(70) { 1u64 } else { *r.pick(&[&10, &256, &65_536, &4_294_967_296]) };
    json!({"ids":ids,"seq0":limbs(seq0),"step":limbs(step),"time":limbs(t0),"height":limbs(if r.pct(80) { 12_345 } else { *r.pick(&[&1u64, &255, &65_536, &4_294_967_295, &9_007_199_254_740_993]) })})
}

fn legacy_root(r: &mut Rng) -> Value {
    let ord = r.pick(&["ORDER_ORDERED", "ORDER_UNORDERED"]);
    let ver = json!({"k":"md","fmt":"std","ver":"ics27-1","cc":"connection-0","hc":"connection-7","addr":"cosmos1legacy","enc":"proto3","tx":"sdk_multi_msg"});
    let ch = json!({"id":"channel-0","port":"wasm.self","cport":"icahost","cchan":"channel-5","order":ord,"conn":"connection-0","ver":ver});
    let cst = r.pick(&["OPEN", "CLOSED"]);
    let none = r.pct(20);
    let mut coch = ch.clone();
    coch["st"] = json!(cst);
    coch["nseq"] = limbs(4);
    // packets of earlier releases may have had a timeout height
    let th = json!({"rev":r.pick(&["1", "0", "18446744073709551615"]),"h":r.pick(&["77", "0", "99999999999"])});
    let th = r.o(65, th);
    let ts = if opt(&th).is_some() && r.pct(25) { json!([]) } else { json!([limbs(1_700_000_600_000_000_000)]) };
    let out: Vec<Value> = if none { vec![] } else {
        vec![
            json!({"chan":"channel-0","seq":limbs(2),"ts":ts,"th":th,"qs":[]}),
            json!({"chan":"channel-0","seq":limbs(3),"ts":[limbs(1_700_000_600_000_000_000)],"th":[],
                "qs":[{"t":"bank_balance","addr":"cosmos1legacy","denom":"uatom"},{"t":"q_stargate","path":"/x.y.Query/Z","data":"AQI="}]}),
        ]
    };
    let exp = r.o(60, json!({"k":"height","n":limbs(99_999)}));
    // records may hold members that the present release no longer knows
    let more = json!(r.pick(&["{\"allow_channel_open_init\":false,", "{\"admin\":\"owner\",", "{\"allow_channel_open_init\":true,\"allow_channel_close_init\":false,", "{\"enabled\":null,", "{\"callback_counter\":{\"success\":1,\"error\":0,\"timeout\":0},"]));
    let more = r.o(35, more);
    let cport = if r.pct(12) { json!([r.pick(&["icahost2", "transfer", "", "icaHost"])]) } else { r.o(50, json!("icahost")) };
    json!({"op":"legacy","more":more,"env":{"ids":(0..16).map(|i| format!("channel-{i}")).collect::<Vec<_>>(),"seq0":limbs(1),"step":limbs(1),"time":limbs(1_700_000_000_000_000_000),"height":limbs(12_345)},
        "st":{"own":{"owner":["owner"],"pend":r.o(50, json!("bob")),"exp":exp},
            "cb": if r.pct(70) { json!([r.pick(&["cbk","ctr"])]) } else { json!([]) },
            "ica": if none { json!([]) } else { json!([{"addr":"cosmos1legacy","chan":"channel-0","enc":"proto3"}]) },
            "ch": if none { json!([]) } else { json!([{"c":ch,"st":if cst=="OPEN" {"STATE_OPEN"} else {"STATE_CLOSED"}}]) },
            "ver":{"name":"crates.io:cw-ica-controller","ver":"0.19.0"}},
        "opts":{"conn":"connection-0","cconn":"connection-7","cport":cport,"ord":r.o(50, json!(ord))},
        "core":{"chans": if none { vec![] } else { vec![coch] },"out":out}})
}

// ---------------------------------------------------------------- messages
/// text that is not in any list: random characters, now and then long, with several lines or padded
fn odd_text(r: &mut Rng) -> String {
    const C: &[&str] = &["a", "b", "Z", "0", "9", "-", "_", ".", "/", ":", " ", "\n", "\t", "\"", "\\", "{", "}", "\u{e9}", "\u{2713}", "%", "<", ">", "&", "\u{1f600}", "\u{10ffff}", "\u{2028}", "\u{416}", "'", "\u{7f}"];
    let n = match r.below(10) { 0 => *r.pick(&[&64usize, &65, &128, &129, &257, &300, &1025]), 1 => 1, _ => r.below(24) + 1 };
    (0..n).map(|_| r.pick(C)).collect()
}
/// now and then two texts of a request or an answer are the same
fn correlate(r: &mut Rng, v: &mut Value) {
    const TEXTS: &[&str] = &[
        "to", "contract", "admin", "label", "addr", "val", "src", "dst", "del", "memo", "denom", "description", "base", "display", "name", "symbol", "uri", "uri_hash",
        "aliases", "creator", "ibc_port_id", "address", "operator_address", "delegator_address", "validator_address", "moniker",
    ];
    fn walk<'a>(key: &str, v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| walk(key, x, out)),
            Value::Object(o) => o.iter_mut().for_each(|(k, x)| walk(k, x, out)),
            Value::String(_) if TEXTS.contains(&key) => out.push(v),
            _ => {}
        }
    }
    let mut l = vec![];
    walk("", v, &mut l);
    if l.len() > 1 {
        for _ in 0..r.below(3) + 1 {
            // neighbours as well as distant texts
            let i = r.below(l.len());
            let j = if r.pct(50) { (i + 1) % l.len() } else { r.below(l.len()) };
            if l[i].as_str() != Some("") {
                *l[j] = l[i].clone();
            }
        }
    }
}
fn odd_id(r: &mut Rng) -> String {
    const C: &[&str] = &["a", "b", "c", "x", "1", "2", "0", "Q"];
    let n = match r.below(8) { 0 => *r.pick(&[&64usize, &90, &129]), _ => r.below(40) + 1 };
    (0..n).map(|_| r.pick(C)).collect()
}
fn odd_u64(r: &mut Rng) -> u64 {
    let b = r.below(64) as u32;
    match r.below(4) { 0 => 1u64 << b, 1 => (1u64 << b) - 1, 2 => (1u64 << b) | 1, _ => r.next().wrapping_mul(2_654_435_761) >> b }
}
/// mostly short lists, now and then one of several dozen entries
fn some(r: &mut Rng, most: usize) -> usize {
    match r.below(60) { 0 => 5 + r.below(7), 1 => 17 + r.below(20), 2 => if r.pct(30) { 101 + r.below(5) } else { 12 }, _ => r.below(most + 1) }
}
fn text(r: &mut Rng) -> String {
    if r.pct(15) {
        return odd_text(r);
    }
    r.pick(&["", "a", "cosmos1recipient", "x y", "0", "{\"k\":\"v\"}", "caf\u{e9}\u{2713}", "osmo1qqqq", "juno1contract", "-", "cosmos1ica"]).to_string()
}
fn id_text(r: &mut Rng) -> String {
    if r.pct(12) {
        return odd_id(r);
    }
    r.pick(&["cosmos1recipient", "juno1contract", "cosmosvaloper1xyz", "osmo1qqqq", "a", "cosmosvaloper1other", "cosmos1ica"]).to_string()
}
fn u64s(r: &mut Rng) -> String {
    if r.pct(20) {
        return odd_u64(r).to_string();
    }
    r.pick(&["0", "1", "2", "7", "255", "65536", "4294967296", "9007199254740993", "18446744073709551615"]).to_string()
}
fn amount(r: &mut Rng) -> String {
    if r.pct(15) {
        return (u128::from(odd_u64(r)) << r.below(64)).to_string();
    }
    r.pick(&["0", "1", "100", "999999", "18446744073709551616", "340282366920938463463374607431768211455"]).to_string()
}
fn denom(r: &mut Rng) -> String {
    if r.pct(8) {
        return odd_id(r);
    }
    r.pick(&["uatom", "stake", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/a/b", "uosmo"]).to_string()
}
fn coin(r: &mut Rng) -> Value {
    json!({"denom":denom(r),"amount":amount(r)})
}
fn coins(r: &mut Rng) -> Value {
    let n = if r.pct(3) { some(r, 3) } else { *r.pick(&[&0usize, &1, &1, &2, &3]) };
    json!((0..n).map(|_| coin(r)).collect::<Vec<_>>())
}
fn bytes(r: &mut Rng) -> String {
    if r.pct(20) {
        let n = if r.pct(10) { 200 + r.below(200) } else { r.below(20) };
        let v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        return cosmwasm_std::Binary::new(v).to_base64();
    }
    if r.pct(15) {
        // JSON texts that are not in the shortest form, with members in no order, or not quite JSON
        let j = r.pick(&["{ \"b\": \"1\", \"a\": \"2\" }", "{\"a\": 1.0}", "{\"a\":1}\n", "{\n  \"x\": {\"z\": [1, 2 ], \"y\": null}\n}", "{\"a\":1,\"a\":2}", " {}", "\"text\"",
            "{\"n\":18446744073709551616}", "{\"s\":\"\\u0041\\/\"}", "[1, 2]", "{\"a\":1", "{\"a\":1e2,}", "null"]);
        return cosmwasm_std::Binary::from(j.as_bytes()).to_base64();
    }
    r.pick(&["", "e30=", "eyJhIjoxfQ==", "AAECAw==", "/////w==", "CgRhYmNk", "AA=="]).to_string()
}
pub const MSG_KINDS: &[&str] = &[
    "stargate", "bank_send", "ibc_transfer", "wasm_exec", "wasm_inst", "wasm_inst2", "wasm_migrate", "wasm_upd", "wasm_clear",
    "gov_vote", "gov_votew", "stk_delegate", "stk_undelegate", "stk_redelegate", "dist_withdraw", "dist_setaddr", "dist_fund",
];
pub const BAD_MSG_KINDS: &[&str] = &["bank_burn", "ibc_close", "ibc_send", "custom", "any"];
pub fn message(r: &mut Rng, kind: &str) -> Value {
    let t = kind;
    match kind {
        "stargate" | "any" => json!({"t":t,"url":r.pick(&["/x.y.Z", "/cosmos.bank.v1beta1.MsgSend", "/cosmos.gov.v1.MsgVote", "", "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe", "x.y.Z", "/", "/cosmos.staking.v1beta1.MsgDelegate"]),"value":bytes(r)}),
        "bank_send" => json!({"t":t,"to":text(r),"amount":coins(r)}),
        "bank_burn" => json!({"t":t,"amount":coins(r)}),
        "ibc_transfer" => {
            let k = r.below(3);
            let th = if k != 0 { json!([{"rev":u64s(r),"h":u64s(r)}]) } else { json!([]) };
            let ts = if k != 1 { json!([r.pick(&["1", "1700000000000000000", "18446744073709551615"])]) } else { json!([]) };
            let m = text(r);
            let memo = r.o(60, json!(m));
            json!({"t":t,"chan":r.pick(&["channel-0", "channel-141", "channel-12345"]),"to":text(r),"coin":coin(r),"th":th,"ts":ts,"memo":memo})
        }
        "ibc_close" | "ibc_send" => json!({"t":t,"chan":"channel-3"}),
        "wasm_exec" => json!({"t":t,"contract":id_text(r),"msg":bytes(r),"funds":coins(r)}),
        "wasm_inst" => {
            let a = id_text(r);
            let admin = r.o(50, json!(a));
            json!({"t":t,"admin":admin,"code":u64s(r),"msg":bytes(r),"funds":coins(r),"label":text(r)})
        }
        "wasm_inst2" => {
            let a = id_text(r);
            let admin = r.o(50, json!(a));
            json!({"t":t,"admin":admin,"code":u64s(r),"msg":bytes(r),"funds":coins(r),"label":text(r),"salt":bytes(r)})
        }
        "wasm_migrate" => json!({"t":t,"contract":id_text(r),"code":u64s(r),"msg":bytes(r)}),
        "wasm_upd" => json!({"t":t,"contract":id_text(r),"admin":id_text(r)}),
        "wasm_clear" => json!({"t":t,"contract":id_text(r)}),
        "gov_vote" => json!({"t":t,"id":u64s(r),"opt":r.pick(&["yes", "no", "abstain", "no_with_veto"])}),
        "gov_votew" => {
            let n = r.below(5);
            json!({"t":t,"id":u64s(r),"opts":(0..n).map(|_| json!({"opt":r.pick(&["yes", "no", "abstain", "no_with_veto"]),
                "weight":r.pick(&["0.5", "0.25", "0.100000000000000001", "340282366920938463463.374607431768211455", "1", "0.333333333333333333", "0.000000000000000001", "0", "12.25"])})).collect::<Vec<_>>()})
        }
        "stk_delegate" | "stk_undelegate" => json!({"t":t,"val":id_text(r),"coin":coin(r)}),
        "stk_redelegate" => json!({"t":t,"src":id_text(r),"dst":id_text(r),"coin":coin(r)}),
        "dist_withdraw" => json!({"t":t,"val":id_text(r)}),
        "dist_setaddr" => json!({"t":t,"addr":id_text(r)}),
        "dist_fund" => json!({"t":t,"amount":coins(r)}),
        "custom" => json!({"t":t}),
        _ => panic!("harness: message {kind}"),
    }
}
pub const QUERY_KINDS: &[&str] = &[
    "q_stargate", "bank_balance", "bank_all", "bank_meta", "bank_allmeta", "bank_supply", "wasm_raw", "wasm_smart", "wasm_info", "stk_val",
    "stk_vals", "stk_del", "stk_dels", "stk_bonded",
];
pub const BAD_QUERY_KINDS: &[&str] = &["wasm_code", "q_ibc", "q_dist", "q_custom", "q_grpc"];
pub fn query(r: &mut Rng, t: &str) -> Value {
    match t {
        "q_stargate" | "q_grpc" => { let odd = odd_text(r); json!({"t":t,"path":r.pick(&[odd.as_str(), odd.as_str(), "/x.y.Query/Z/", "/X.Y.QUERY/Z", " /x.y.Query/Z", "//x.y.Query/Z", "x.y.Query/Z", "/", "/cosmos.bank.v1beta1.Query/Balance", "/x.y.Query/Z", "/cosmos.staking.v1beta1.Query/Params", "/cosmwasm.wasm.v1.Query/SmartContractState", "/cosmos.bank.v1beta1.Query/AllBalances", "/cosmos.staking.v1beta1.Query/Validators", "/cosmos.bank.v1beta1.Query/SupplyOf", "no-slash", ""]),"data":bytes(r)}) }
        "bank_balance" => json!({"t":t,"addr":text(r),"denom":denom(r)}),
        "bank_all" => json!({"t":t,"addr":text(r)}),
        "bank_meta" | "bank_supply" => json!({"t":t,"denom":denom(r)}),
        "bank_allmeta" => { let b = bytes(r); let key = r.o(60, json!(b)); let pg = json!({"key":key,"limit":r.pick(&["0", "1", "100", "4294967295"]),"rev":r.pick(&["true", "false"])}); json!({"t":t,"pg":r.o(70, pg)}) }
        "wasm_raw" => json!({"t":t,"addr":id_text(r),"key":bytes(r)}),
        "wasm_smart" => json!({"t":t,"addr":id_text(r),"msg":bytes(r)}),
        "wasm_info" => json!({"t":t,"addr":id_text(r)}),
        "wasm_code" => json!({"t":t,"code":u64s(r)}),
        "stk_val" => json!({"t":t,"addr":id_text(r)}),
        "stk_del" => json!({"t":t,"del":id_text(r),"val":id_text(r)}),
        "stk_dels" | "q_dist" => json!({"t":t,"del":id_text(r)}),
        "stk_vals" | "stk_bonded" | "q_ibc" | "q_custom" => json!({"t":t}),
        _ => panic!("harness: query {t}"),
    }
}

// ---------------------------------------------------------------- host answers
fn rcoin(r: &mut Rng, bad: bool) -> Value {
    let a = if bad { r.pick(&["abc", "-1", "1.5", "", "340282366920938463463374607431768211456"]).to_string() } else { amount(r) };
    json!({"denom":denom(r),"amount":a})
}
fn page(r: &mut Rng) -> Value {
    let k = json!({"next_key":if r.pct(60) { "bmV4dA==".to_string() } else { bytes(r) },"total":u64s(r)});
    r.o(50, k)
}
fn rmeta(r: &mut Rng) -> Value {
    let n = r.below(3);
    json!({"description":text(r),"base":denom(r),"display":text(r),"name":text(r),"symbol":text(r),"uri":text(r),"uri_hash":text(r),
        "denom_units":(0..n).map(|_| { let k = r.below(3); json!({"denom":denom(r),"exponent":if r.pct(80) { r.pick(&["0", "6", "18"]).to_string() } else { (odd_u64(r) as u32).to_string() },"aliases":(0..k).map(|_| json!(id_text(r))).collect::<Vec<_>>()}) }).collect::<Vec<_>>()})
}
fn rval(r: &mut Rng, bad: bool) -> Value {
    let d = |r: &mut Rng, bad: bool| -> String { if bad { r.pick(&["", "abc", "0.1234567890123456789"]).to_string() } else { r.pick(&["0", "1", "0.05", "0.1", "100000000000000000", "50000000000000000"]).to_string() } };
    let which = r.below(4);
    let c = if bad && which == 3 { if r.pct(50) { json!([]) } else { json!([{"commission_rates":[]}]) } } else {
        json!([{"commission_rates":[{"rate":d(r, bad && which == 0),"max_rate":d(r, bad && which == 1),"max_change_rate":d(r, bad && which == 2)}]}])
    };
    json!({"operator_address":id_text(r),"jailed":r.pick(&["true", "false"]),"status":r.pick(&["0", "3"]),"tokens":amount(r),"delegator_shares":"7",
        "description":[{"moniker":text(r),"identity":""}],"commission":c,"min_self_delegation":"1"})
}
fn rdel(r: &mut Rng, bad: bool) -> Value {
    let del = json!({"delegator_address":id_text(r),"validator_address":id_text(r),"shares":"100"});
    // a missing balance next to a present delegation counts as malformed
    let bal = if bad && r.pct(40) { json!([]) } else { json!([rcoin(r, bad)]) };
    json!({"delegation": if bad { json!([del]) } else { r.o(85, del) },"balance":bal})
}
/// a host answer for query q: {k:"v",v} or {k:"raw",b}
pub fn answer(r: &mut Rng, q: &Value, bad: bool) -> Value {
    let t = s(&q["t"]);
    if t == "q_stargate" {
        return json!({"k":"raw","b":if r.pct(50) { r.pick(&["", "AQID", "/w==", "CgV1YXRvbQ=="]).to_string() } else { bytes(r) }});
    }
    if bad && (r.pct(40) || ["wasm_raw", "wasm_smart", "wasm_info", "bank_meta", "bank_allmeta", "stk_bonded"].contains(&t)) {
        if t == "stk_bonded" && r.pct(50) {
            return json!({"k":"v","v":{"params":[]}});
        }
        return json!({"k":"raw","b":r.pick(&["/w==", "CgVh", "CA==", "Dw==", "AA=="])});
    }
    let n = if bad { r.below(4) + 1 } else { some(r, 3) };
    let b = if bad { r.below(n) } else { 99 };
    let v = match t {
        "bank_balance" => { let c = rcoin(r, bad); json!({"balance": if bad { json!([c]) } else { r.o(85, c) }}) }
        "bank_supply" => { let c = rcoin(r, bad); json!({"amount": if bad { json!([c]) } else { r.o(85, c) }}) }
        "bank_all" => json!({"balances":(0..n).map(|i| rcoin(r, i == b)).collect::<Vec<_>>(),"pagination":page(r)}),
        "bank_meta" => { let m = rmeta(r); json!({"metadata":r.o(85, m)}) }
        "bank_allmeta" => json!({"metadatas":(0..n).map(|_| rmeta(r)).collect::<Vec<_>>(),"pagination":page(r)}),
        "wasm_raw" | "wasm_smart" => json!({"data":bytes(r)}),
        "wasm_info" => {
            let who = text(r);
            let i = json!({"code_id":u64s(r),"creator":who,"admin":r.pick(&["", "juno1admin", who.as_str()]),"label":text(r),"ibc_port_id":r.pick(&["", "wasm.juno1x"])});
            json!({"address":id_text(r),"contract_info":r.o(80, i)})
        }
        "stk_val" => { let x = rval(r, bad); json!({"validator": if bad { json!([x]) } else { r.o(85, x) }}) }
        "stk_vals" => json!({"validators":(0..n).map(|i| rval(r, i == b)).collect::<Vec<_>>(),"pagination":page(r)}),
        "stk_del" => { let x = rdel(r, bad); json!({"delegation_response": if bad { json!([x]) } else { r.o(80, x) }}) }
        "stk_dels" => json!({"delegation_responses":(0..n).map(|i| rdel(r, i == b)).collect::<Vec<_>>(),"pagination":page(r)}),
        "stk_bonded" => json!({"params":[{"unbonding_time":[{"seconds":"5"}],"max_validators":"100","max_entries":"7","historical_entries":"10","bond_denom":denom(r),"min_commission_rate":"0"}]}),
        _ => panic!("harness: answer {t}"),
    };
    if r.pct(12) { json!({"k":"v","v":v,"x":"t"}) } else { json!({"k":"v","v":v}) }
}

// ---------------------------------------------------------------- events
fn owner_of(w: &World) -> String {
    w.query(json!({"ownership":{}})).ok().and_then(|o| o["owner"].as_str().map(al)).unwrap_or_else(|| "owner".into())
}
fn pending_of(w: &World) -> Option<String> {
    w.query(json!({"ownership":{}})).ok().and_then(|o| o["pending_owner"].as_str().map(al))
}
/// anybody may relay, the owner and the callback contract included
fn relayer(r: &mut Rng, w: &World) -> String {
    match r.below(12) {
        0 => owner_of(w),
        10 | 11 => format!("cosmwasm1relayer{}", r.below(100_000)),
        1 => cb_of(w).unwrap_or_else(|| "self".into()),
        _ => r.pick(&["relayer", "relayer", "bob", "alice", "deployer", "self"]).to_string(),
    }
}
fn cb_of(w: &World) -> Option<String> {
    w.query(json!({"get_contract_state":{}})).ok().and_then(|o| o["callback_address"].as_str().map(al))
}
fn metadata(r: &mut Rng, conn: &str, badpct: u64, allow_empty: bool) -> Value {
    let long = |n: usize| "a1B2".chars().cycle().take(n).collect::<String>();
    let mut m = json!({"k":"md","fmt":r.pick(&["std", "std", "ws", "rev"]),"ver":"ics27-1","cc":conn,"hc":r.pick(&["connection-0", "connection-7", ""]),
        "addr":r.pick(&["cosmos1ica", "cosmos1ica", "osmo1other", "A1", "0"]),"enc":"proto3","tx":"sdk_multi_msg"});
    if r.pct(5) {
        m["addr"] = json!(long(*r.pick(&[&128usize, &127, &1, &64, &100])));
    } else if r.pct(15) {
        let n = r.below(45) + 1;
        m["addr"] = json!((0..n).map(|_| char::from(b"aAbBzZ0189cosmQ"[r.below(15)])).collect::<String>());
    }
    if r.pct(5) {
        // letters of other scripts; the limit is on bytes
        let n = *r.pick(&[&1usize, &2, &5, &42, &43, &64, &64, &65, &65, &100, &128, &129]);
        let c = r.pick(&["\u{e9}", "\u{df}", "\u{416}", "\u{4e2d}", "a\u{e9}", "\u{2713}"]);
        m["addr"] = json!(c.repeat(n).chars().take(n).collect::<String>() + r.pick(&["", "", "x", "0"]));
    }
    if r.pct(9) {
        // the account at the host may be named like an account here
        m["addr"] = json!(crate::conv::addr(r.pick(&["alice", "bob", "deployer", "cbk", "self", "relayer", "owner"])));
    }
    if allow_empty && r.pct(50) {
        m["addr"] = json!("");
    }
    if r.pct(badpct) {
        match r.below(13) {
            0 => m["ver"] = json!(r.pick(&["ics27-2", "", "ics27-1 ", "ICS27-1", "ics20-1", "ics27", "27-1", "ics27_1", "ics27-01", "ics27-10", "ics27-1.0", "ics27-1-rc", "ics027-1", "interchain-accounts-1", "1"])),
            1 => m["cc"] = json!(r.pick(&["connection-9", "", "connection-00", "connection-", &conn[..conn.len() - 1], &format!("{conn}0"), &format!(" {conn}"), "CONNECTION-0"])),
            2 => m["addr"] = json!(r.pick(&["cosmos1x ", "/cosmos1", "a:b", "a,b", "@a", "a`", "[", "{x}", "a\0", "bad-addr", "a b", "cosmos1!", "a.b", "a\nb", "cosmos1_x"])),
            3 => {
                let n = *r.pick(&[&129usize, &200, &128, &127, &1000, &256]);
                m["addr"] = json!(match r.below(3) { 0 => long(n), 1 => "7".repeat(n), _ => "z".repeat(n) });
            }
            4 => m["addr"] = json!(""),
            5 => m["enc"] = json!(r.pick(&["proto3json", "proto3json", "json", "", "PROTO3", "protobuf", "Protobuf", "proto", "proto-3", "proto_3", "proto2", "Proto3", "proto3 ", " proto3", "proto3Json", "proto3_json",
                "Proto3Json", "protobuf3", "pb", "binary", "amino", "any", "tx", "default", "unspecified", "0", "1"])),
            6 => m["tx"] = json!(r.pick(&["sdk_single_msg", "", "sdk_multi_msg ", "SDK_MULTI_MSG", "sdk_multi_msgs", "sdk-multi-msg", "sdkMultiMsg", "SdkMultiMsg", "multi_msg", "sdk_msg", "cosmos_tx", "default", "sdk_multi_ms", "sdk_multi_msg\0"])),
            7 => m["fmt"] = json!(r.pick(&["drop:addr", "drop:tx", "drop:ver", "drop:enc", "drop:cc", "drop:hc"])),
            8 => return json!({"k":"raw","s":r.pick(&["ics27-1", "{}", "null", "[]", "{\"version\":\"ics27-1\"}", "{", " ", "{\"fee_version\":\"ics29-1\",\"app_version\":\"\"}",
                "[\"ics27-1\",\"connection-0\",\"connection-7\",\"\",\"proto3\",\"sdk_multi_msg\"]", "{\"fee_version\":\"ics29-1\",\"app_version\":\"ics27-1\"}", "\"ics27-1\"", "0"])}),
            9 | 10 => {
                // a mandatory field under a plausible other name
                m["fmt"] = json!(format!("key:{}", r.pick(&["tx:txType", "tx:TxType", "tx:tx", "tx:type", "tx:TX_TYPE", "tx:tx-type", "cc:controllerConnectionId", "cc:controller_connection",
                    "cc:connection_id", "cc:connection", "hc:hostConnectionId", "hc:host_connection", "hc:counterparty_connection_id", "hc:hostconnectionid", "addr:Address", "addr:addr", "addr:account",
                    "addr:ica_address", "addr:account_address", "enc:Encoding", "enc:tx_encoding", "enc:enc", "enc:txEncoding", "ver:Version", "ver:v", "ver:VERSION", "ver:app_version", "ver:ica_version"])));
            }
            11 => {
                m["fmt"] = json!(r.pick(&["dup:addr", "dup:tx", "dup:ver", "dup:enc", "dup:cc", "dup:hc", "val:addr:null", "val:addr:0", "val:addr:[]", "val:addr:true", "val:tx:null", "val:ver:null", "val:ver:1",
                    "val:cc:null", "val:cc:0", "val:hc:null", "val:hc:7", "val:enc:null", "val:enc:0", "val:enc:1", "val:enc:[\"proto3\"]"]));
            }
            _ => m["cc"] = json!(self::conn(r)),
        }
    }
    m
}
fn tamper_chan(r: &mut Rng, w: &World) -> Value {
    let k = r.pick(&["id", "port", "cport", "cchan", "conn", "order", "ver", "ver2", "ver3", "ver3", "force"]);
    match k {
        "id" => json!({"id":r.pick(&["channel-77", "channel-0", "channel-1"])}),
        "port" => json!({"port":r.pick(&["wasm.alice", "icacontroller", "icahost", "transfer"])}),
        "cport" => json!({"cport":r.pick(&["icahost2", "transfer", "", "icahost"])}),
        "cchan" => json!({"cchan":r.pick(&["channel-88", "channel-0", ""])}),
        "conn" => json!({"conn":conn(r)}),
        "order" => json!({"order":r.pick(&["ORDER_ORDERED", "ORDER_UNORDERED"])}),
        "ver" => json!({"ver":{"k":"raw","s":r.pick(&["", "ics27-1", "x"])}}),
        "ver2" => json!({"ver":metadata(r, "connection-0", 20, true)}),
        // what was negotiated, written down differently or with one part changed
        "ver3" => match w.query(json!({"get_channel":{}})).ok().map(|c| parse_version(s(&c["channel"]["version"]))) {
            Some(mut v) if v["k"] == "md" => {
                if r.pct(70) {
                    v["fmt"] = json!(r.pick(&["std", "ws", "rev"]));
                } else {
                    let f = *r.pick(&[&"hc", &"addr", &"ver", &"tx"]);
                    v["fmt"] = json!("std");
                    v[f] = json!(format!("{}x", s(&v[f])));
                }
                json!({"ver":v})
            }
            _ => json!({"force":"t"}),
        },
        _ => json!({"force":"t"}),
    }
}
fn tamper_init(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({"cport":r.pick(&["icahost2", "transfer", "", "icahost", "ICAHOST", "icahost-1", "icahost.x", "icahos", "wasm.icahost", " icahost"])}),
        1 => json!({"conn":conn(r)}),
        2 => json!({"ver":{"k":"raw","s":r.pick(&["", "ics27-1", "x"])}}),
        _ => json!({"ver":metadata(r, "connection-0", 20, true)}),
    }
}
fn empty() -> Value {
    json!({})
}

pub fn control(r: &mut Rng, p: &Profile, w: &World, k: &str) -> Value {
    match k {
        "create" => { let o = options(r, p); json!({"k":"create","opts": r.o(60, o)}) }
        "close" => json!({"k":"close"}),
        "send" => send(r, p, w),
        "setcb" => {
            let a = if r.pct(p.ctr) { "ctr" } else { r.pick(&["cbk", "cbk2", "alice", "owner", "UPPER:cbk", "junk", "cbk", "ctr", "PAD:cbk", "", "deployer", "self"]) };
            json!({"k":"setcb","a":r.o(75, json!(a))})
        }
        "xfer" => {
            let exp = match r.below(4) {
                0 => json!({"k":"never","n":[0,0,0]}),
                1 | 2 => json!({"k":"height","n":limbs((w.height as i64 + *r.pick(&[&-1i64, &0, &1, &2, &10, &100])).max(0) as u64)}),
                _ => json!({"k":"time","n":limbs((w.time as i64 + *r.pick(&[&-1i64, &0, &1, &1_000_000_000, &60_000_000_000, &5])).max(0) as u64)}),
            };
            json!({"k":"xfer","to":if r.pct(6) { r.pick(&["UPPER:bob", "PAD:bob", "", "self", "relayer"]) } else { r.pick(&["owner", "alice", "bob", "carol", "cbk"]) },"exp":r.o(60, exp)})
        }
        "accept" => json!({"k":"accept"}),
        "renounce" => json!({"k":"renounce"}),
        _ => panic!("harness: control {k}"),
    }
}
fn send(r: &mut Rng, p: &Profile, w: &World) -> Value {
    let n = match r.below(200) { 0 => 30 + r.below(40), 1 => 9 + r.below(12), 2 if r.pct(20) => 100 + r.below(60), 3..=8 => some(r, p.maxmsgs), _ => r.below(p.maxmsgs + 1) };
    let mut msgs: Vec<Value> = (0..n).map(|_| { let k = r.pick(MSG_KINDS); message(r, k) }).collect();
    if !msgs.is_empty() && r.pct(10) {
        let (i, j) = (r.below(msgs.len()), r.below(msgs.len() + 1));
        msgs.insert(j, msgs[i].clone());
    }
    let mut qs: Vec<Value> = if r.pct(p.queries) {
        let n = if r.pct(6) { *r.pick(&[&5usize, &6, &8, &9, &12, &17, &20, &33, &40]) } else { *r.pick(&[&1usize, &1, &2, &3, &4]) };
        let mut l: Vec<Value> = (0..n).map(|_| { let k = r.pick(QUERY_KINDS); query(r, k) }).collect();
        if r.pct(10) {
            let (i, j) = (r.below(l.len()), r.below(l.len() + 1));
            l.insert(j, l[i].clone());
        }
        l
    } else {
        vec![]
    };
    if p.long && r.pct(4) && !qs.is_empty() {
        qs[0] = json!({"t":"q_stargate","path":"/long".repeat(r.below(4000)),"data":""});
    }
    if r.pct(12) {
        let mut both = json!([msgs, qs]);
        correlate(r, &mut both);
        msgs = both[0].as_array().unwrap().clone();
        qs = both[1].as_array().unwrap().clone();
    }
    if r.pct(p.unsup) {
        if r.pct(50) {
            let k = r.pick(BAD_MSG_KINDS);
            let m = message(r, k);
            let i = r.below(msgs.len() + 1);
            msgs.insert(i, m);
        } else {
            let k = r.pick(BAD_QUERY_KINDS);
            let q = query(r, k);
            let i = r.below(qs.len() + 1);
            qs.insert(i, q);
        }
    }
    let long = "m".repeat(300);
    let memo = r.pick(&["", "hello", "caf\u{e9}\u{2713}", "{\"wasm\":{\"x\":1}}", "a\\b\"c", long.as_str(), " ", "\u{1f600}<&>", "a\nb"]).to_string();
    let memo = if r.pct(25) { odd_text(r) } else { memo };
    let now_s = w.time / 1_000_000_000;
    let lim = 18_446_744_073u64 - now_s;
    let t = *r.pick(&[&0u64, &1, &59, &600, &601, &3600, &86_400, &4_294_967_296, &lim, &(lim + 1), &(lim - 1), &18_446_744_073, &18_446_744_074, &u64::MAX, &30, &10, &300]);
    let t = if r.pct(70) && t > 1_000_000 { 120 } else { t };
    // any other number of seconds, and ends on whole minutes, hours and days
    let any = r.below(5_000) as u64;
    let round = |by: u64| by - now_s % by;
    let t = if r.pct(30) { *r.pick(&[&any, &round(60), &round(3_600), &round(86_400), &(round(60) + 600)]) } else { t };
    json!({"k":"send","msgs":msgs,"qs":qs,"memo":r.o(50, json!(memo)),"tmo":r.o(55, limbs(t)),"jf":r.pick(&["", "null", "empty"])})
}

fn attached(r: &mut Rng) -> Value {
    json!((0..r.below(3) + 1).map(|i| json!({"denom":r.pick(&["uatom", "stake", "untrn"]).to_string() + &"x".repeat(i),"amount":r.pick(&["0", "1", "5000000"])})).collect::<Vec<_>>())
}
/// a history in which some kinds of events are rare, absent or frequent
pub fn swarm(r: &mut Rng, p: &Profile) -> Profile {
    let mut q = p.clone();
    if r.pct(50) {
        for x in &mut q.w {
            let f = *r.pick(&[&0u32, &1, &2, &2, &8]);
            x.1 = x.1 * f;
        }
        // something must remain possible
        for x in &mut q.w {
            if x.0 == "tick" && x.1 == 0 {
                x.1 = 1;
            }
        }
        if r.pct(30) {
            q.queries = *r.pick(&[&0u64, &100]);
        }
        if r.pct(30) {
            q.unordered = *r.pick(&[&0u64, &70]);
        }
        if r.pct(20) {
            q.cbfail = 0;
        }
    }
    q
}

/// a long history that does much of one thing: many packets in flight, many acknowledgements,
/// timeouts, failures, re-created channels or nominations
pub fn marathon(r: &mut Rng, p: &Profile) -> Profile {
    let mut q = p.clone();
    let main: &[(&str, u32)] = match r.below(7) {
        0 => &[("send", 40), ("timeout", 40)],
        1 | 2 => &[("send", 40), ("ack", 40)],
        3 => &[("send", 60), ("ack", 20), ("timeout", 4)],
        4 => &[("create", 20), ("open_ack", 30), ("close", 12), ("close_confirm", 12), ("send", 16), ("ack", 8)],
        5 => &[("xfer", 20), ("accept", 20), ("setcb", 20), ("send", 10), ("tick", 6)],
        _ => &[("send", 30), ("ack", 20), ("timeout", 20), ("create", 3), ("open_ack", 10)],
    };
    // one request again and again
    let hammer = if p.long && r.pct(40) { r.pick(&["xfer", "setcb", "create", "send", "migrate", "intruder", "r_open_init", "close_confirm"]) } else { "" };
    let alone = [(hammer, 80), ("accept", 4), ("send", 6), ("ack", 6)];
    let main = if hammer.is_empty() { main } else { &alone[..] };
    for x in &mut q.w {
        x.1 = main.iter().find(|m| m.0 == x.0).map_or(u32::from(x.0 == "open_ack") * 6 + u32::from(x.0 == "create") * 2, |m| m.1);
    }
    q.unordered = *r.pick(&[&100u64, &100, &0, &50]);
    q.maxmsgs = 1;
    q.unsup = 1;
    q.badmd = 2;
    q.tamper = 1;
    q.cbfail = *r.pick(&[&0u64, &3]);
    q.queries = if p.long { 100 } else { *r.pick(&[&100u64, &p.queries, &p.queries]) };
    q.errs = *r.pick(&[&22u64, &22, &90, &0]);
    q.legacy = 0;
    q.badinst = 0;
    q.ctr = if p.ctr > 50 { 100 } else { 0 };
    q
}
pub fn event(r: &mut Rng, p: &Profile, w: &World) -> Option<Value> {
    let e = event0(r, p, w)?;
    let mut e = if ["open_ack", "ack", "timeout"].contains(&s(&e["op"])) { with_cbm(r, p, w, e) } else { e };
    if s(&e["op"]) == "exec" && e["m"].get("jf").is_none() && r.pct(if p.intoform { 50 } else { 6 }) {
        e["m"]["jf"] = json!("null");
    }
    if s(&e["op"]) == "exec" && r.pct(4) {
        e["funds"] = attached(r);
    }
    if p.via > 0 && r.pct(p.via) {
        let to = if r.pct(94) { "self" } else { r.pick(&["alice", "cbk"]) };
        match s(&e["op"]) {
            // a request the helper's message type has no room for cannot be built for another contract
            "exec" => {
                let to = if crate::help::representable(&crate::world::real_exec(&e["m"])) { to } else { "self" };
                e["via"] = json!({"t":"exec","to":to})
            }
            "migrate" => e["via"] = json!({"t":"migrate","to":to,"code":r.pick(CODES)}),
            _ => {}
        }
    }
    Some(e)
}
fn event0(r: &mut Rng, p: &Profile, w: &World) -> Option<Value> {
    let total: u32 = p.w.iter().map(|x| x.1).sum();
    for _ in 0..60 {
        let mut x = (r.next() % u64::from(total)) as u32;
        let mut op = "tick";
        for (k, wt) in &p.w {
            if x < *wt {
                op = k;
                break;
            }
            x -= wt;
        }
        if let Some(e) = try_event(r, p, w, op) {
            return Some(e);
        }
    }
    None
}
/// how the callback contract reacts: accepts, fails, or calls back into the controller
fn with_cbm(r: &mut Rng, p: &Profile, w: &World, mut e: Value) -> Value {
    e["cbm"] = json!("ok");
    if r.pct(p.cbfail) {
        e["cbm"] = json!("fail");
    } else if cb_of(w).is_some() && r.pct(if cb_of(w) == Some(owner_of(w)) { p.reent * 3 } else { p.reent }) {
        let k = if r.pct(20) {
            r.pick(&["xfer", "accept", "renounce", "accept"])
        } else if s(&e["op"]) == "timeout" {
            r.pick(&["create", "send", "setcb", "create"])
        } else {
            r.pick(&["send", "send", "send", "setcb", "close", "create"])
        };
        if k != "create" || w.chans.len() < 14 {
            e["cbm"] = json!("re");
            e["re"] = control(r, p, w, k);
        }
    }
    e
}
fn try_event(r: &mut Rng, p: &Profile, w: &World, op: &str) -> Option<Value> {
    let owner = owner_of(w);
    let open = w.chans.iter().any(|c| c.st == "OPEN");
    let inits: Vec<String> = w.chans.iter().filter(|c| c.st == "INIT").map(|c| c.id.clone()).collect();
    let exec = |sender: &str, m: Value, tam: Value| json!({"op":"exec","sender":sender,"m":m,"tam":tam,"cbm":"ok"});
    let any_chan = |r: &mut Rng| -> Option<String> {
        if w.chans.is_empty() { None } else { Some(w.chans[r.below(w.chans.len())].id.clone()) }
    };
    Some(match op {
        "send" => {
            if !open && r.pct(85) {
                return None;
            }
            exec(&owner, send(r, p, w), empty())
        }
        "create" => {
            if (open && r.pct(70)) || inits.len() >= 3 || w.chans.len() >= 14 {
                return None;
            }
            let tam = if r.pct(p.tamper) {
                if r.pct(60) {
                    let c = conn(r);
                    json!({"ver": if r.pct(45) { json!({"k":"raw","s":""}) } else { metadata(r, c, p.badmd.max(40), true) }})
                } else {
                    tamper_init(r)
                }
            } else {
                empty()
            };
            let m = control(r, p, w, "create");
            let other = match opt(&m["opts"]) {
                Some(o) => other_port(o),
                None => w.chans.iter().any(|c| c.cport != "icahost"),
            };
            let tam = if tam == empty() && other && r.pct(75) { json!({"cport":"icahost"}) } else { tam };
            exec(&owner, m, tam)
        }
        "close" => {
            if !open && r.pct(70) {
                return None;
            }
            let tam = if r.pct(p.tamper / 2) { tamper_chan(r, w) } else { empty() };
            exec(&owner, json!({"k":"close"}), tam)
        }
        "setcb" => exec(&owner, control(r, p, w, "setcb"), empty()),
        "xfer" => exec(&owner, control(r, p, w, "xfer"), empty()),
        "accept" => {
            let who = match pending_of(w) {
                Some(x) if r.pct(75) => x,
                _ => r.pick(PEOPLE).to_string(),
            };
            exec(&who, json!({"k":"accept"}), empty())
        }
        "renounce" => exec(&owner, json!({"k":"renounce"}), empty()),
        "intruder" => {
            let mut cands: Vec<String> = ["deployer", "owner", "alice", "bob", "carol", "relayer", "self", "cbk"].iter().map(|x| x.to_string()).collect();
            cands.extend(pending_of(w));
            cands.extend(cb_of(w));
            // whoever is named like the interchain account
            if let Some(a) = w.query(json!({"get_contract_state":{}})).ok().and_then(|o| o["ica_info"]["ica_address"].as_str().map(al)) {
                if crate::conv::ALIASES.contains(&a.as_str()) {
                    cands.extend(vec![a; 12]);
                }
            }
            cands.retain(|x| *x != owner);
            let who = cands[r.below(cands.len())].clone();
            let k = r.pick(&["create", "close", "send", "setcb", "xfer", "accept", "renounce", "send", "close"]);
            if k == "create" && w.chans.len() >= 14 {
                return None;
            }
            exec(&who, control(r, p, w, k), empty())
        }
        "r_open_init" => {
            if w.chans.len() >= 14 {
                return None;
            }
            let c = conn(r);
            json!({"op":"open_init","conn":c,"cport":r.pick(&["icahost", "icahost", "icahost", "transfer"]),"order":r.pick(&["ORDER_ORDERED", "ORDER_UNORDERED"]),
                "ver": if r.pct(30) { json!({"k":"raw","s":""}) } else { metadata(r, c, 10, true) },"tam":{}})
        }
        "open_try" => {
            let c = conn(r);
            json!({"op":"open_try","conn":c,"cport":r.pick(&["icahost", "icacontroller-x", "transfer"]),"cchan":"channel-50","order":r.pick(&["ORDER_ORDERED", "ORDER_UNORDERED"]),"ver":metadata(r, c, 10, true)})
        }
        "open_confirm" => json!({"op":"open_confirm","chan":any_chan(r)?}),
        "recv" => json!({"op":"recv","chan":any_chan(r)?,"data":r.pick(&["{}", "{\"type\":1,\"data\":[]}", "x"])}),
        "open_ack" => {
            if inits.is_empty() {
                return None;
            }
            let id = inits[r.below(inits.len())].clone();
            let conn = w.chans.iter().find(|c| c.id == id).unwrap().conn.clone();
            let tam = if r.pct(p.tamper / 3) { json!({"conn":self::conn(r)}) } else { empty() };
            json!({"op":"open_ack","chan":id,"cchan":r.pick(&["channel-5", "channel-0", "channel-900"]),"cver":metadata(r, &conn, p.badmd, false),"tam":tam})
        }
        "r_close_init" => {
            let tam = if r.pct(p.tamper) { tamper_chan(r, w) } else { empty() };
            json!({"op":"close_init","chan":any_chan(r)?,"tam":tam})
        }
        "close_confirm" => {
            let tam = if r.pct(p.tamper) { tamper_chan(r, w) } else { empty() };
            let c = if r.pct(85) { w.chans.iter().find(|c| c.st == "OPEN").map(|c| c.id.clone()).or_else(|| any_chan(r))? } else { any_chan(r)? };
            json!({"op":"close_confirm","chan":c,"tam":tam})
        }
        "ack" => {
            if w.out.is_empty() {
                return None;
            }
            let x = &w.out[r.below(w.out.len())];
            json!({"op":"ack","chan":x.chan,"seq":limbs(x.seq),"rel":relayer(r, w),"a":ack(r, p, &x.qs),"how":r.pick(&["go", "go", "", "ascii", "spaced"])})
        }
        "timeout" => {
            if w.out.is_empty() {
                return None;
            }
            let x = &w.out[r.below(w.out.len())];
            json!({"op":"timeout","chan":x.chan,"seq":limbs(x.seq),"rel":relayer(r, w)})
        }
        "tick" => json!({"op":"tick","dt":limbs(*r.pick(&[&1u64, &1_000_000_000, &5_000_000_001, &60_000_000_000, &999_999_999, &2_592_000_000_000_000, &if w.time < 5_000_000_000_000_000_000 { 315_360_000_000_000_001 } else { 7 }])),"dh":limbs(*r.pick(&[&0u64, &1, &1, &2, &10, &500_000]))}),
        "migrate" => migrate(r),
        "garbled" => {
            let entry = r.pick(&["execute", "execute", "execute", "execute", "execute", "execute", "execute", "instantiate", "migrate", "query"]);
            let base = match entry {
                "execute" => {
                    let k = if open { r.pick(&["send", "send", "send", "close", "setcb", "xfer"]) } else { r.pick(&["create", "create", "setcb", "xfer", "send"]) };
                    crate::world::real_exec(&control(r, p, w, k))
                }
                "instantiate" => crate::world::real_inst(&root0(r, &Profile { legacy: 0, badinst: 0, ..p.clone() })),
                "migrate" => json!({}),
                _ => r.pick(&[&json!({"get_channel":{}}), &json!({"get_contract_state":{}}), &json!({"ownership":{}})]).clone(),
            };
            let text = crate::garble::garble(r, &base, entry);
            json!({"op":"garbled","entry":entry,"sender":owner,"text":text})
        }
        "again" => {
            let l: Vec<&String> = w.told.iter().filter(|x| !x.1.is_empty()).map(|x| x.0).collect();
            if l.is_empty() {
                return None;
            }
            let f = l[r.below(l.len())];
            let n = w.told[f].len();
            // mostly the latest
            let i = if r.pct(60) { n } else { r.below(n) + 1 };
            json!({"op":"again","f":f,"i":i,"sender":r.pick(&["self", "self", "alice", "ctr"])})
        }
        "admin" => json!({"op":"admin","to":r.pick(&["self", "self", "alice"]),"admin":if r.pct(60) { json!([r.pick(&["owner", "bob", "anything", "ADMIN", "", "a b ", "self", "alice"])]) } else { json!([]) }}),
        "hquery" => json!({"op":"hquery","to":if r.pct(92) { "self" } else { "alice" }}),
        _ => panic!("harness: op {op}"),
    })
}
/// what hosts and middleware answer, and text that a careless reader could take for something else
const ERRORS: &[&str] = &[
    "", " ", "x", "0", "1", "null", "true", "{}", "[]", "\"\"", "result", "error", "success", "timeout", "caf\u{e9} \"quoted\"", "{\"result\":\"AA==\"}", "{\"error\":\"inner\"}", "AQ==",
    "ABCI code: 1: error handling packet: see events for details", "ABCI error: 5: insufficient funds", "codespace: sdk, code: 5", "channel closed", "channel-0 is not OPEN",
    "packet timeout", "packet already received", "query not allowed", "/cosmos.bank.v1beta1.Query/Balance is not module query safe", "unauthorized: account sequence mismatch",
    "rpc error: <nil> & \u{1f600}", "out of gas in location: WasmEngine; gasWanted: 0, gasUsed: 1", "panic: runtime error", "cannot unmarshal ICS-27 interchain account packet data", "message type not allowed: /cosmos.bank.v1beta1.MsgSend",
    "connection not found", "owner", "unknown", "empty response", "not found", "failed to execute message; message index: 0: spendable balance is smaller than 7uatom",
];
pub fn ack(r: &mut Rng, p: &Profile, qs: &[Value]) -> Value {
    if r.pct(p.errs) {
        let odd = odd_text(r);
        let long = "line of an error text\n".repeat(r.below(30) + 1);
        let abci = format!("ABCI code: {}: error handling packet: see events for details", r.below(40));
        let text = ERRORS[r.below(ERRORS.len())];
        if r.pct(2) {
            return json!({"k":"error","s":"0123456789abcdef".repeat(*r.pick(&[&300usize, &4097, &8193, &20_000]))});
        }
        return json!({"k":"error","s":r.pick(&[odd.as_str(), long.as_str(), abci.as_str(), abci.as_str(), text, text, text, text])});
    }
    let n = r.below(3);
    let rs: Vec<Value> = (0..n).map(|_| json!({"url":r.pick(&["/cosmos.bank.v1beta1.MsgSendResponse", "/x.Y", "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse", "/cosmwasm.wasm.v1.MsgExecuteContractResponse"]),"value":if r.pct(60) { bytes(r) } else { "CAUSAXg=".to_string() }})).collect();
    if qs.is_empty() {
        if r.pct(2) {
            let n = *r.pick(&[&300usize, &1025, &4097, &16_385, &65_537, &70_000, &262_145]);
            return json!({"k":"result","d":{"k":"raw","b":crate::proto::b64(&vec![7u8; n])}});
        }
        return match r.below(4) {
            0 => json!({"k":"result","d":{"k":"raw","b":r.pick(&["AQ==", "", "/////w==", "c3VjY2Vzcw=="])}}),
            // an answer that looks like a query answer although nothing was asked
            1 => json!({"k":"result","d":{"k":"tx","rs":rs,"q":[{"h":"5","rs":[{"k":"raw","b":"AQID"}]}]}}),
            2 => json!({"k":"result","d":{"k":"tx","rs":rs,"q":[],"x":"t"}}),
            _ => json!({"k":"result","d":{"k":"tx","rs":rs,"q":[]}}),
        };
    }
    let bad = r.pct(p.badresp);
    let mut ans: Vec<Value> = qs.iter().map(|q| answer(r, q, false)).collect();
    if bad {
        match r.below(4) {
            0 if r.pct(70) => {
                ans.pop();
            }
            0 => ans.clear(),
            1 => {
                for _ in 0..if r.pct(75) { 1 } else { 2 + r.below(3) } {
                    // answers beyond the last query have no type
                    ans.push(json!({"k":"raw","b":r.pick(&["AQID", "AQID", "", "/w=="])}));
                }
            }
            _ => {
                let typed: Vec<usize> = (0..qs.len()).filter(|i| s(&qs[*i]["t"]) != "q_stargate").collect();
                if !typed.is_empty() {
                    let i = typed[r.below(typed.len())];
                    ans[i] = answer(r, &qs[i], true);
                }
            }
        }
    }
    let mut ans = Value::Array(ans);
    if r.pct(15) {
        correlate(r, &mut ans);
    }
    let mut d = json!({"k":"tx","rs":rs,"q":[{"h":u64s(r),"rs":ans}]});
    if r.pct(12) {
        d["x"] = json!("t");
    }
    json!({"k":"result","d":d})
}
pub fn migrate(r: &mut Rng) -> Value {
    let cur = env!("REPO_VERSION");
    let p: Vec<u64> = cur.split('.').map(|x| x.split('-').next().unwrap_or("0").parse().unwrap_or(0)).collect();
    let (a, b, c) = (p[0], p[1], p[2]);
    // (numbers, suffix) are valid semantic versions; plain strings are not
    let mut l: Vec<(Vec<u64>, &str)> = vec![
        (vec![a, b, c], ""), (vec![a, b, c], "-rc.1"), (vec![a, b, c], "-alpha"), (vec![a, b, c], "-0"), (vec![a, b + 1, 0], ""), (vec![a, b, c + 1], ""),
        (vec![a + 1, 0, 0], ""), (vec![a, b + 1, 0], "-rc.1"), (vec![a, b, c + 1], "-rc.1"), (vec![0, 1, 0], ""), (vec![0, 3, 0], ""), (vec![0, 9, 99], ""),
        (vec![0, 2, 0], ""), (vec![0, 19, 5], ""), (vec![0, 19, 0], "-beta.2+build5"), (vec![0, 100, 0], ""), (vec![9, 0, 0], ""), (vec![0, 0, 0], ""),
        (vec![a + 1, 0, 0], "-alpha"), (vec![1, 0, 0], ""), (vec![0, 19, 999_999], ""), (vec![10, 0, 0], ""),
        (vec![a, b, c], "+build"), (vec![a, b, c + 1], "+b1"), (vec![a + 1, 0, 0], "+b1"), (vec![0, 1, 0], "+x.7"), (vec![a, b, c], "-rc.1+b"),
    ];
    if b > 0 {
        l.push((vec![a, b - 1, 999], ""));
        l.push((vec![a, b - 1, c + 1], ""));
    }
    if r.pct(40) {
        l = vec![(vec![0, 1, 0], ""), (vec![0, 19, 0], ""), (vec![0, 2, 0], ""), (vec![0, 19, 9], "")];
    }
    let (ver, sv) = if r.pct(14) {
        (r.pick(&["", "1", "v0.1.0", "0.1", "0.1.0.0", "01.2.3", "abc", "0.1.x"]).to_string(), json!([]))
    } else {
        let (n, suf) = l[r.below(l.len())].clone();
        (format!("{}.{}.{}{suf}", n[0], n[1], n[2]), json!([{"n":n,"pre": if suf.starts_with('-') { "t" } else { "f" }}]))
    };
    json!({"op":"migrate","name":if r.pct(85) { "crates.io:cw-ica-controller" } else { r.pick(&["crates.io:cw-ica-owner", "", "cw-ica-controller", "crates.io:cw-ica-controller2"]) },
        "ver":ver,"sv":sv,"enc": if r.pct(12) { json!([r.pick(&["proto3json", "proto3"])]) } else { json!([]) }})
}
/// the recovery sequence every history must allow at its end: close if open, create, complete, send, acknowledge
pub fn probe(i: usize, w: &World) -> Option<Value> {
    let owner = owner_of(w);
    let exec = |m: Value| json!({"op":"exec","sender":owner,"m":m,"tam":{},"cbm":"ok"});
    let open = w.query(json!({"get_channel":{}})).is_ok_and(|c| c["channel_status"] == "STATE_OPEN");
    match i {
        0 => Some(if open { exec(json!({"k":"close"})) } else { json!({"op":"tick","dt":limbs(1),"dh":limbs(1)}) }),
        1 => Some(exec(json!({"k":"create","opts":[]}))),
        2 => Some(exec(json!({"k":"create","opts":[{"conn":"connection-1","cconn":"connection-7","cport":[],"ord":["ORDER_UNORDERED"]}]}))),
        3 => {
            let c = w.chans.iter().rev().find(|c| c.st == "INIT")?;
            Some(json!({"op":"open_ack","chan":c.id,"cchan":"channel-901","cver":{"k":"md","fmt":"std","ver":"ics27-1","cc":c.conn,"hc":"connection-7",
                "addr":"cosmos1recovered","enc":"proto3","tx":"sdk_multi_msg"},"tam":{},"cbm":"ok"}))
        }
        4 => Some(exec(json!({"k":"send","msgs":[{"t":"bank_send","to":"x","amount":[]}],"qs":[{"t":"bank_balance","addr":"y","denom":"z"}],"memo":[],"tmo":[],"jf":""}))),
        5 | 6 => {
            let x = if i == 5 { w.out.last()? } else { w.out.first()? };
            if i == 6 { return Some(json!({"op":"timeout","chan":x.chan,"seq":limbs(x.seq),"rel":"relayer","cbm":"ok"})); }
            if x.qs.len() != 1 || x.qs[0]["t"] != "bank_balance" {
                return None;
            }
            Some(json!({"op":"ack","chan":x.chan,"seq":limbs(x.seq),"rel":"relayer","a":{"k":"result","d":{"k":"tx","rs":[],"q":[{"h":"77","rs":[{"k":"v","v":{"balance":[{"denom":"z","amount":"5"}]}}]}]}},"cbm":"ok"}))
        }
        _ => None,
    }
}
