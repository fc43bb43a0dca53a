//! Spec-level JSON <-> the JSON/bytes the contract really sees.
use crate::proto::{b64, decode, encode, unb64};
use serde_json::{json, Map, Value};

pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: expected string, got {v}"))
}
/// 0/1 element array -> Option
pub fn opt(v: &Value) -> Option<&Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: expected option array, got {v}")).first()
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: expected array, got {v}"))
}
pub fn limbs(n: u64) -> Value {
    json!([n / 1_000_000_000_000_000_000, n / 1_000_000_000 % 1_000_000_000, n % 1_000_000_000])
}
pub fn unlimbs(v: &Value) -> u64 {
    let a = arr(v);
    let g = |i: usize| a[i].as_u64().expect("harness: limb");
    g(0) * 1_000_000_000_000_000_000 + g(1) * 1_000_000_000 + g(2)
}
pub fn num(v: &Value) -> Value {
    json!(s(v).parse::<u64>().unwrap_or_else(|_| panic!("harness: number {v}")))
}
pub fn tok(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut g: u64 = 0x9E3779B97F4A7C15;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100000001b3);
        g = (g.rotate_left(5) ^ u64::from(*x)).wrapping_mul(0x2545F4914F6CDD1D);
    }
    format!("tok:{h:016x}{g:016x}:{}", b.len())
}

// ---------------------------------------------------------------- addresses
pub const ALIASES: &[&str] = &["self", "owner", "alice", "bob", "carol", "cbk", "ctr", "relayer", "deployer", "cbk2"];
pub fn addr(alias: &str) -> String {
    if ALIASES.contains(&alias) {
        cosmwasm_std::testing::MockApi::default().addr_make(alias).to_string()
    } else if let Some(a) = alias.strip_prefix("UPPER:") {
        addr(a).to_uppercase()
    } else if let Some(a) = alias.strip_prefix("PAD:") {
        format!("{} ", addr(a))
    } else if let Some(a) = alias.strip_prefix("LPAD:") {
        format!(" {}", addr(a))
    } else if let Some(a) = alias.strip_prefix("TRUNC:") {
        let x = addr(a);
        x[..x.len() - 1].to_string()
    } else {
        alias.to_string()
    }
}
fn alias_map() -> &'static std::collections::HashMap<String, &'static str> {
    static M: std::sync::OnceLock<std::collections::HashMap<String, &'static str>> = std::sync::OnceLock::new();
    M.get_or_init(|| ALIASES.iter().map(|a| (addr(a), *a)).collect())
}
pub fn al(a: &str) -> String {
    if let Some(x) = alias_map().get(a) {
        return (*x).to_string();
    }
    if let Some(r) = a.strip_prefix("wasm.") {
        if let Some(x) = alias_map().get(r) {
            return format!("wasm.{x}");
        }
    }
    a.to_string()
}
pub fn port_of(alias_port: &str) -> String {
    alias_port.strip_prefix("wasm.").map_or_else(|| alias_port.to_string(), |a| format!("wasm.{}", addr(a)))
}

// ---------------------------------------------------------------- versions
const MD: [(&str, &str); 6] = [
    ("ver", "version"),
    ("cc", "controller_connection_id"),
    ("hc", "host_connection_id"),
    ("addr", "address"),
    ("enc", "encoding"),
    ("tx", "tx_type"),
];
pub fn render_version(v: &Value) -> String {
    if s(&v["k"]) == "raw" {
        return s(&v["s"]).to_string();
    }
    let kv: Vec<(String, String)> = MD
        .iter()
        .map(|(a, b)| (format!("{b:?}"), serde_json::to_string(s(&v[*a])).unwrap()))
        .collect();
    match s(&v["fmt"]) {
        "std" => format!("{{{}}}", kv.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")),
        "ws" => format!("{{ {} }}", kv.iter().map(|(k, v)| format!("{k} : {v}")).collect::<Vec<_>>().join(" , ")),
        "rev" => format!("{{{}}}", kv.iter().rev().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")),
        // malformed on purpose: a field missing / an unknown field added
        f if f.starts_with("drop:") => {
            let d = MD.iter().find(|(a, _)| *a == &f[5..]).expect("harness: drop").1;
            let d = format!("{d:?}");
            format!("{{{}}}", kv.iter().filter(|(k, _)| *k != d).map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","))
        }
        // a field under another name, twice, or with a value of another type
        f if f.starts_with("key:") => {
            let mut it = f[4..].splitn(2, ':');
            let (d, n) = (it.next().unwrap(), it.next().expect("harness: key"));
            format!("{{{}}}", MD.iter().zip(&kv).map(|((a, _), (k, v))| if *a == d { format!("{n:?}:{v}") } else { format!("{k}:{v}") }).collect::<Vec<_>>().join(","))
        }
        f if f.starts_with("dup:") => {
            format!("{{{}}}", MD.iter().zip(&kv).map(|((a, _), (k, v))| if *a == &f[4..] { format!("{k}:{v},{k}:{v}") } else { format!("{k}:{v}") }).collect::<Vec<_>>().join(","))
        }
        f if f.starts_with("val:") => {
            let mut it = f[4..].splitn(2, ':');
            let (d, n) = (it.next().unwrap(), it.next().expect("harness: val"));
            format!("{{{}}}", MD.iter().zip(&kv).map(|((a, _), (k, v))| if *a == d { format!("{k}:{n}") } else { format!("{k}:{v}") }).collect::<Vec<_>>().join(","))
        }
        "extra" => format!("{{{},\"extra\":\"x\"}}", kv.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")),
        f => panic!("harness: fmt {f}"),
    }
}
pub fn parse_version(x: &str) -> Value {
    if let Ok(Value::Object(o)) = serde_json::from_str::<Value>(x) {
        if o.len() == 6 && MD.iter().all(|(_, b)| o.get(*b).is_some_and(Value::is_string)) {
            let mut m = Map::new();
            m.insert("k".into(), json!("md"));
            for (a, b) in MD {
                m.insert(a.into(), o[b].clone());
            }
            for f in ["std", "ws", "rev"] {
                m.insert("fmt".into(), json!(f));
                if render_version(&Value::Object(m.clone())) == x {
                    return Value::Object(m);
                }
            }
            m.insert("fmt".into(), json!("other"));
            return Value::Object(m);
        }
    }
    json!({"k":"raw","s":x})
}

// ---------------------------------------------------------------- options
pub fn real_options(o: &Value) -> Value {
    let mut m = Map::new();
    m.insert("connection_id".into(), o["conn"].clone());
    m.insert("counterparty_connection_id".into(), o["cconn"].clone());
    if let Some(p) = opt(&o["cport"]) {
        m.insert("counterparty_port_id".into(), p.clone());
    }
    if let Some(p) = opt(&o["ord"]) {
        m.insert("channel_ordering".into(), p.clone());
    }
    Value::Object(m)
}

// ---------------------------------------------------------------- messages
fn put_opt(m: &mut Map<String, Value>, k: &str, v: &Value) {
    m.insert(k.into(), opt(v).cloned().unwrap_or(Value::Null));
}
pub fn real_msg(m: &Value) -> Value {
    let t = s(&m["t"]);
    let g = |k: &str| m[k].clone();
    match t {
        "stargate" => json!({"stargate":{"type_url":g("url"),"value":g("value")}}),
        "any" => json!({"any":{"type_url":g("url"),"value":g("value")}}),
        "bank_send" => json!({"bank":{"send":{"to_address":g("to"),"amount":g("amount")}}}),
        "bank_burn" => json!({"bank":{"burn":{"amount":g("amount")}}}),
        "ibc_transfer" => {
            let th = opt(&m["th"]).map(|h| json!({"revision":num(&h["rev"]),"height":num(&h["h"])})).unwrap_or(Value::Null);
            let ts = opt(&m["ts"]).cloned().unwrap_or(Value::Null);
            let mut o = json!({"channel_id":g("chan"),"to_address":g("to"),"amount":g("coin"),"timeout":{"block":th,"timestamp":ts}});
            put_opt(o.as_object_mut().unwrap(), "memo", &m["memo"]);
            json!({"ibc":{"transfer":o}})
        }
        "ibc_close" => json!({"ibc":{"close_channel":{"channel_id":g("chan")}}}),
        "ibc_send" => json!({"ibc":{"send_packet":{"channel_id":g("chan"),"data":"e30=","timeout":{"block":null,"timestamp":"1"}}}}),
        "wasm_exec" => json!({"wasm":{"execute":{"contract_addr":g("contract"),"msg":g("msg"),"funds":g("funds")}}}),
        "wasm_inst" | "wasm_inst2" => {
            let mut o = json!({"code_id":num(&m["code"]),"msg":g("msg"),"funds":g("funds"),"label":g("label")});
            put_opt(o.as_object_mut().unwrap(), "admin", &m["admin"]);
            if t == "wasm_inst2" {
                o["salt"] = g("salt");
                json!({"wasm":{"instantiate2":o}})
            } else {
                json!({"wasm":{"instantiate":o}})
            }
        }
        "wasm_migrate" => json!({"wasm":{"migrate":{"contract_addr":g("contract"),"new_code_id":num(&m["code"]),"msg":g("msg")}}}),
        "wasm_upd" => json!({"wasm":{"update_admin":{"contract_addr":g("contract"),"admin":g("admin")}}}),
        "wasm_clear" => json!({"wasm":{"clear_admin":{"contract_addr":g("contract")}}}),
        "gov_vote" => json!({"gov":{"vote":{"proposal_id":num(&m["id"]),"option":g("opt")}}}),
        "gov_votew" => json!({"gov":{"vote_weighted":{"proposal_id":num(&m["id"]),
            "options":arr(&m["opts"]).iter().map(|o| json!({"option":o["opt"],"weight":o["weight"]})).collect::<Vec<_>>()}}}),
        "stk_delegate" => json!({"staking":{"delegate":{"validator":g("val"),"amount":g("coin")}}}),
        "stk_undelegate" => json!({"staking":{"undelegate":{"validator":g("val"),"amount":g("coin")}}}),
        "stk_redelegate" => json!({"staking":{"redelegate":{"src_validator":g("src"),"dst_validator":g("dst"),"amount":g("coin")}}}),
        "dist_withdraw" => json!({"distribution":{"withdraw_delegator_reward":{"validator":g("val")}}}),
        "dist_setaddr" => json!({"distribution":{"set_withdraw_address":{"address":g("addr")}}}),
        "dist_fund" => json!({"distribution":{"fund_community_pool":{"amount":g("amount")}}}),
        "custom" => json!({"custom":{}}),
        _ => panic!("harness: message kind {t}"),
    }
}

// ---------------------------------------------------------------- queries
pub fn real_query(q: &Value) -> Value {
    let g = |k: &str| q[k].clone();
    match s(&q["t"]) {
        "q_stargate" => json!({"stargate":{"path":g("path"),"data":g("data")}}),
        "q_grpc" => json!({"grpc":{"path":g("path"),"data":g("data")}}),
        "bank_balance" => json!({"bank":{"balance":{"address":g("addr"),"denom":g("denom")}}}),
        "bank_all" => json!({"bank":{"all_balances":{"address":g("addr")}}}),
        "bank_meta" => json!({"bank":{"denom_metadata":{"denom":g("denom")}}}),
        "bank_allmeta" => {
            let p = opt(&q["pg"])
                .map(|p| json!({"key":opt(&p["key"]).cloned().unwrap_or(Value::Null),"limit":num(&p["limit"]),"reverse":s(&p["rev"])=="true"}))
                .unwrap_or(Value::Null);
            json!({"bank":{"all_denom_metadata":{"pagination":p}}})
        }
        "bank_supply" => json!({"bank":{"supply":{"denom":g("denom")}}}),
        "wasm_raw" => json!({"wasm":{"raw":{"contract_addr":g("addr"),"key":g("key")}}}),
        "wasm_smart" => json!({"wasm":{"smart":{"contract_addr":g("addr"),"msg":g("msg")}}}),
        "wasm_info" => json!({"wasm":{"contract_info":{"contract_addr":g("addr")}}}),
        "wasm_code" => json!({"wasm":{"code_info":{"code_id":num(&q["code"])}}}),
        "stk_val" => json!({"staking":{"validator":{"address":g("addr")}}}),
        "stk_vals" => json!({"staking":{"all_validators":{}}}),
        "stk_del" => json!({"staking":{"delegation":{"delegator":g("del"),"validator":g("val")}}}),
        "stk_dels" => json!({"staking":{"all_delegations":{"delegator":g("del")}}}),
        "stk_bonded" => json!({"staking":{"bonded_denom":{}}}),
        "q_ibc" => json!({"ibc":{"port_id":{}}}),
        "q_dist" => json!({"distribution":{"delegator_withdraw_address":{"delegator_address":g("del")}}}),
        "q_custom" => json!({"custom":{}}),
        t => panic!("harness: query kind {t}"),
    }
}

/// gRPC path per query kind: only used to pick the schema a host answer is encoded with.
pub fn path_of(q: &Value) -> &str {
    match s(&q["t"]) {
        "q_stargate" => s(&q["path"]),
        "bank_balance" => "/cosmos.bank.v1beta1.Query/Balance",
        "bank_all" => "/cosmos.bank.v1beta1.Query/AllBalances",
        "bank_meta" => "/cosmos.bank.v1beta1.Query/DenomMetadata",
        "bank_allmeta" => "/cosmos.bank.v1beta1.Query/DenomsMetadata",
        "bank_supply" => "/cosmos.bank.v1beta1.Query/SupplyOf",
        "wasm_raw" => "/cosmwasm.wasm.v1.Query/RawContractState",
        "wasm_smart" => "/cosmwasm.wasm.v1.Query/SmartContractState",
        "wasm_info" => "/cosmwasm.wasm.v1.Query/ContractInfo",
        "stk_val" => "/cosmos.staking.v1beta1.Query/Validator",
        "stk_vals" => "/cosmos.staking.v1beta1.Query/Validators",
        "stk_del" => "/cosmos.staking.v1beta1.Query/Delegation",
        "stk_dels" => "/cosmos.staking.v1beta1.Query/DelegatorDelegations",
        "stk_bonded" => "/cosmos.staking.v1beta1.Query/Params",
        _ => "",
    }
}

// ---------------------------------------------------------------- packets
/// Packet data bytes -> spec level
pub fn parse_packet(data: &[u8]) -> Value {
    fn go(data: &[u8]) -> Option<Value> {
        let v: Value = serde_json::from_slice(data).ok()?;
        let o = v.as_object()?;
        if o.keys().any(|k| !["type", "data", "memo"].contains(&k.as_str())) {
            return None;
        }
        // ibc-go decodes `data` as bytes: proto-JSON accepts base64 text; amino/std JSON arrays are numbers
        let bytes: Vec<u8> = match o.get("data")? {
            Value::Array(a) => a.iter().map(|x| x.as_u64().and_then(|n| u8::try_from(n).ok())).collect::<Option<_>>()?,
            Value::String(x) => cosmwasm_std::Binary::from_base64(x).ok()?.to_vec(),
            _ => return None,
        };
        let tx = decode("CosmosTx", &bytes)?;
        if tx.get("_unk").is_some() {
            return None;
        }
        let msgs: Vec<Value> = arr(&tx["messages"]).iter().map(|a| parse_any(a)).collect();
        let memo = match o.get("memo") {
            None => json!([]),
            // no memo asked for means no memo member at all
            Some(Value::Null) => json!(["\u{0}null"]),
            Some(Value::String(m)) => json!([m]),
            _ => return None,
        };
        let ty = match o.get("type")? {
            Value::Number(n) => n.to_string(),
            Value::String(t) => t.clone(),
            _ => return None,
        };
        Some(json!({"k":"pkt","typ":ty,"memo":memo,"msgs":msgs}))
    }
    go(data).unwrap_or_else(|| json!({"k":"garbled","raw":tok(data)}))
}
fn parse_any(a: &Value) -> Value {
    let url = s(&a["type_url"]);
    let raw = s(&a["value"]);
    let bytes = unb64(raw);
    let v = if url == "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe" {
        decode(url, &bytes).map(|mut v| {
            if let Some(rs) = v.get_mut("requests").and_then(Value::as_array_mut) {
                for r in rs.iter_mut() {
                    let p = s(&r["path"]).to_string();
                    let d = unb64(s(&r["data"]));
                    let v = decode(&format!("req{p}"), &d).unwrap_or_else(|| json!({"undecodable":"t"}));
                    *r = json!({"path":p,"raw":b64(&d),"v":v});
                }
            }
            v
        })
    } else {
        decode(url, &bytes)
    };
    json!({"url":url,"raw":raw,"v":v.unwrap_or_else(|| json!({"undecodable":"t"}))})
}

// ---------------------------------------------------------------- acknowledgements
/// Bytes of a success result.  {k:"tx", rs:[{url,value}], q:[{h, rs:[{k:"v",v}|{k:"raw",b}]}]} | {k:"raw", b}
pub fn ack_result_bytes(d: &Value, qs: &[Value]) -> Vec<u8> {
    if s(&d["k"]) == "raw" {
        return unb64(s(&d["b"]));
    }
    let mut rs: Vec<Value> = arr(&d["rs"]).iter().map(|r| json!({"type_url":r["url"],"value":r["value"]})).collect();
    if let Some(q) = opt(&d["q"]) {
        let resp: Vec<Value> = arr(&q["rs"])
            .iter()
            .enumerate()
            .map(|(i, r)| {
                if s(&r["k"]) == "raw" {
                    r["b"].clone()
                } else {
                    // an answer may say which query it answers; otherwise it is the query at its position
                    let p = if r["t"].is_string() { path_of(r) } else { qs.get(i).map_or("", |q| path_of(q)) };
                    let mut b = encode(&format!("resp{p}"), &r["v"]);
                    if r["x"].is_string() {
                        b.extend(NEWER);
                    }
                    json!(b64(&b))
                }
            })
            .collect();
        let mut m = encode("MsgModuleQuerySafeResponse", &json!({"height":q["h"],"responses":resp}));
        if d["x"].is_string() {
            m.extend(NEWER);
        }
        rs.push(json!({"type_url":"/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse","value":b64(&m)}));
    }
    let mut b = encode("TxMsgData", &json!({"msg_responses":rs}));
    if d["x"].is_string() {
        // the deprecated list of results, and a field of a newer host
        b.extend([0x0a, 0x07, 0x0a, 0x02, b'/', b'x', 0x12, 0x01, 0x05]);
        b.extend(NEWER);
    }
    b
}
/// a field that the present schema does not have
const NEWER: [u8; 6] = [0xfa, 0x07, 0x03, b'n', b'e', b'w'];
/// the text as JSON, the way the named writer puts it
pub fn json_text(x: &str, how: &str) -> String {
    let plain = serde_json::to_string(x).unwrap();
    match how {
        "go" => plain.replace('<', "\\u003c").replace('>', "\\u003e").replace('&', "\\u0026"),
        "ascii" => plain.chars().map(|c| if c.is_ascii() { c.to_string() } else { c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{u:04x}")).collect() }).collect(),
        _ => plain,
    }
}

// ---------------------------------------------------------------- callbacks
/// the value of a text, number or truth value at a place where receivers expect exactly that
fn sv(v: &Value) -> Option<Value> {
    v.as_str().map(|x| json!(x))
}
fn nv(v: &Value) -> Option<Value> {
    v.as_u64().map(|x| json!(x.to_string()))
}
/// generic: leaves to strings, null -> [], used for host-shaped structures whose layout is fixed
fn only(o: &Value, keys: &[&str]) -> Option<()> {
    let m = o.as_object()?;
    if m.keys().all(|k| keys.contains(&k.as_str())) {
        Some(())
    } else {
        None
    }
}
fn coin(v: &Value) -> Option<Value> {
    only(v, &["denom", "amount"])?;
    Some(json!({"denom":sv(v.get("denom")?)?,"amount":sv(v.get("amount")?)?}))
}
fn optv(v: Option<&Value>, f: impl Fn(&Value) -> Option<Value>) -> Option<Value> {
    match v {
        None | Some(Value::Null) => Some(json!([])),
        Some(x) => Some(json!([f(x)?])),
    }
}
fn list(v: Option<&Value>, f: impl Fn(&Value) -> Option<Value>) -> Option<Value> {
    Some(json!(v?.as_array()?.iter().map(f).collect::<Option<Vec<_>>>()?))
}
fn strs(v: &Value, keys: &[&str]) -> Option<Map<String, Value>> {
    let mut m = Map::new();
    for k in keys {
        m.insert((*k).into(), sv(v.get(*k)?)?);
    }
    Some(m)
}
fn metadata(v: &Value) -> Option<Value> {
    let keys = ["description", "base", "display", "name", "symbol", "uri", "uri_hash"];
    only(v, &["description", "base", "display", "name", "symbol", "uri", "uri_hash", "denom_units"])?;
    let mut m = strs(v, &keys)?;
    m.insert(
        "denom_units".into(),
        list(v.get("denom_units"), |u| {
            let mut m = strs(u, &["denom"])?;
            m.insert("exponent".into(), nv(u.get("exponent")?)?);
            m.insert("aliases".into(), list(u.get("aliases"), sv)?);
            Some(Value::Object(m))
        })?,
    );
    Some(Value::Object(m))
}
fn validator(v: &Value) -> Option<Value> {
    let k = ["address", "commission", "max_commission", "max_change_rate"];
    only(v, &k)?;
    Some(Value::Object(strs(v, &k)?))
}
fn delegation(v: &Value) -> Option<Value> {
    only(v, &["delegator", "validator", "amount"])?;
    let mut m = strs(v, &["delegator", "validator"])?;
    m.insert("amount".into(), coin(v.get("amount")?)?);
    Some(Value::Object(m))
}
fn one_key(v: &Value) -> Option<(&str, &Value)> {
    let o = v.as_object()?;
    if o.len() != 1 {
        return None;
    }
    o.iter().next().map(|(k, v)| (k.as_str(), v))
}
fn query_response(r: &Value) -> Option<Value> {
    let (k, v) = one_key(r)?;
    if k == "stargate" {
        only(v, &["data", "path"])?;
        return Some(json!({"t":"q_stargate","data":sv(v.get("data")?)?,"path":sv(v.get("path")?)?}));
    }
    let (k2, v) = one_key(v)?;
    Some(match (k, k2) {
        ("bank", "balance") => json!({"t":"bank_balance","amount":coin(v.get("amount")?)?}),
        ("bank", "supply") => json!({"t":"bank_supply","amount":coin(v.get("amount")?)?}),
        ("bank", "all_balances") => json!({"t":"bank_all","amount":list(v.get("amount"), coin)?}),
        ("bank", "denom_metadata") => json!({"t":"bank_meta","metadata":metadata(v.get("metadata")?)?}),
        ("bank", "all_denom_metadata") => {
            json!({"t":"bank_allmeta","metadata":list(v.get("metadata"), metadata)?,"next_key":optv(v.get("next_key"), sv)?})
        }
        ("wasm", "contract_info") => json!({"t":"wasm_info","info":optv(Some(v), |i| {
            only(i, &["code_id","creator","admin","pinned","ibc_port"])?;
            let mut m = strs(i, &["creator"])?;
            m.insert("code_id".into(), nv(i.get("code_id")?)?);
            m.insert("pinned".into(), json!(i.get("pinned")?.as_bool()?.to_string()));
            m.insert("admin".into(), optv(i.get("admin"), sv)?);
            m.insert("ibc_port".into(), optv(i.get("ibc_port"), sv)?);
            Some(Value::Object(m))
        })?}),
        ("wasm", "raw_contract_state") => json!({"t":"wasm_raw","data":optv(Some(v), sv)?}),
        ("wasm", "smart_contract_state") => json!({"t":"wasm_smart","data":sv(v)?}),
        ("staking", "bonded_denom") => json!({"t":"stk_bonded","denom":sv(v.get("denom")?)?}),
        ("staking", "validator") => json!({"t":"stk_val","validator":optv(v.get("validator"), validator)?}),
        ("staking", "all_validators") => json!({"t":"stk_vals","validators":list(v.get("validators"), validator)?}),
        ("staking", "delegation") => json!({"t":"stk_del","delegation":optv(v.get("delegation"), delegation)?}),
        ("staking", "all_delegations") => json!({"t":"stk_dels","delegations":list(v.get("delegations"), delegation)?}),
        _ => return None,
    })
}
pub fn parse_channel(c: &Value) -> Option<Value> {
    only(c, &["endpoint", "counterparty_endpoint", "order", "version", "connection_id"])?;
    let (e, ce) = (c.get("endpoint")?, c.get("counterparty_endpoint")?);
    Some(json!({
        "id": e.get("channel_id")?.as_str()?, "port": al(e.get("port_id")?.as_str()?),
        "cchan": ce.get("channel_id")?.as_str()?, "cport": ce.get("port_id")?.as_str()?,
        "order": c.get("order")?.as_str()?, "conn": c.get("connection_id")?.as_str()?,
        "ver": parse_version(c.get("version")?.as_str()?),
    }))
}
fn parse_packet_json(p: &Value) -> Option<Value> {
    only(p, &["data", "src", "dest", "sequence", "timeout"])?;
    let (a, b) = (p.get("src")?, p.get("dest")?);
    let t = p.get("timeout")?;
    let th = optv(t.get("block"), |b| Some(json!({"rev":nv(b.get("revision")?)?,"h":nv(b.get("height")?)?})))?;
    Some(json!({
        "chan": a.get("channel_id")?.as_str()?, "port": al(a.get("port_id")?.as_str()?),
        "dchan": b.get("channel_id")?.as_str()?, "dport": b.get("port_id")?.as_str()?,
        "seq": limbs(p.get("sequence")?.as_u64()?),
        "tok": tok(&cosmwasm_std::Binary::from_base64(p.get("data")?.as_str()?).ok()?),
        "ts": optv(t.get("timestamp"), |x| Some(limbs(x.as_str()?.parse().ok()?)))?, "th": th,
    }))
}
pub fn parse_query_result(q: &Value) -> Option<Value> {
    let (k, v) = one_key(q)?;
    Some(match k {
        "error" => json!({"k":"err","msg":v.as_str()?}),
        "success" => {
            only(v, &["height", "responses"])?;
            let rs: Vec<Value> = v
                .get("responses")?
                .as_array()?
                .iter()
                .map(|r| query_response(r).unwrap_or_else(|| json!({"t":"garbled","raw":r.to_string()})))
                .collect();
            json!({"k":"ok","h":nv(v.get("height")?)?,"rs":rs})
        }
        _ => return None,
    })
}
/// the inner callback message (without the receive_ica_callback wrapper)
pub fn parse_callback_inner(v: &Value) -> Option<Value> {
    let (k, v) = one_key(v)?;
    Some(match k {
        "on_acknowledgement_packet_callback" => {
            only(v, &["ica_acknowledgement", "original_packet", "relayer", "query_result"])?;
            let (ak, av) = one_key(v.get("ica_acknowledgement")?)?;
            let ack = match ak {
                "result" => json!({"k":"result","d":tok(&cosmwasm_std::Binary::from_base64(av.as_str()?).ok()?)}),
                "error" => json!({"k":"error","d":av.as_str()?}),
                _ => return None,
            };
            json!({"k":"ack","ack":ack,"pkt":parse_packet_json(v.get("original_packet")?)?,
                "rel":al(v.get("relayer")?.as_str()?),"qr":optv(v.get("query_result"), parse_query_result)?})
        }
        "on_timeout_packet_callback" => {
            only(v, &["original_packet", "relayer"])?;
            json!({"k":"timeout","pkt":parse_packet_json(v.get("original_packet")?)?,"rel":al(v.get("relayer")?.as_str()?)})
        }
        "on_channel_open_ack_callback" => {
            only(v, &["channel", "ica_address", "tx_encoding"])?;
            json!({"k":"open","ch":parse_channel(v.get("channel")?)?,"ica":v.get("ica_address")?.as_str()?,"enc":v.get("tx_encoding")?.as_str()?})
        }
        _ => return None,
    })
}
pub fn parse_callback(bytes: &[u8]) -> Value {
    fn go(bytes: &[u8]) -> Option<Value> {
        let v: Value = serde_json::from_slice(bytes).ok()?;
        let (k, inner) = one_key(&v)?;
        if k != "receive_ica_callback" {
            return None;
        }
        parse_callback_inner(inner)
    }
    go(bytes).unwrap_or_else(|| json!({"k":"garbled","raw":String::from_utf8_lossy(bytes)}))
}
