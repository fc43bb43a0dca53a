//! Requests that are not of the documented form.  The specification refuses all of them.
use crate::conv::s;
use crate::gen::Rng;
use serde_json::{json, Value};

const OPS: &[&str] = &["close_channel", "create_channel", "update_callback_address", "send_cosmos_msgs", "get_channel", "ownership", "receive_ica_callback", "ping"];

/// plausible names that no operation has
const OTHERS: &[&str] = &[
    "", "x", "exec", "execute", "send", "send_msgs", "send_messages", "send_cosmos_messages", "send_custom_ica_messages", "send_query_msgs", "send_tx", "query", "close", "open", "create",
    "open_channel", "reopen_channel", "channel_create", "remove_channel", "callback", "update_callback", "set_callback_address", "set_callback", "remove_callback", "update_admin", "update_owner",
    "transfer_ownership", "accept_ownership", "renounce_ownership", "ownership_update", "migrate", "reply", "state", "get_state", "contract_state", "get_contract", "channel", "get_channel_state",
    "channel_state", "owner", "get_owner", "get_ownership", "contract_info", "pending_owner",
];
/// wrong values for a field
fn wrong(r: &mut Rng, field: &str) -> Option<Value> {
    let mut l: Vec<Value> = match field {
        "messages" => vec![
            json!({}), json!("x"), json!(5), json!(true), json!([5]), json!([null]), json!(["x"]), json!([{}]), json!([{"bank":{}}]), json!([{"foo":{}}]), json!([{"bank":{"send":{"to_address":"a"}}}]),
            json!([{"bank":{"send":{"to_address":"x","amount":[{"denom":"u","amount":"abc"}]}}}]), json!([{"gov":{"vote":{"proposal_id":7,"option":"maybe"}}}]),
            json!([{"stargate":{"type_url":"/a.b.C","value":"%%"}}]), json!([{"wasm":{"execute":{"contract_addr":"a","msg":"e30=","funds":"none"}}}]),
        ],
        "queries" => vec![json!({}), json!("x"), json!([5]), json!([{}]), json!([{"bank":{}}]), json!([{"foo":{}}]), json!([{"stargate":{"path":"/a","data":"%"}}])],
        "packet_memo" => vec![json!(5), json!({}), json!([]), json!(true), json!(["x"])],
        "timeout_seconds" => vec![json!("60"), json!(-1), json!(1.5), json!(true), json!([60]), json!("")],
        "callback_address" | "owner" | "send_callbacks_to" | "counterparty_port_id" => vec![json!(5), json!({}), json!([]), json!(false)],
        "new_owner" | "connection_id" | "counterparty_connection_id" => vec![json!(5), json!(null), json!({}), json!([])],
        "channel_ordering" => vec![json!("ORDER_NONE"), json!("ordered"), json!("ORDER_UNINITIALIZED"), json!(1), json!(true), json!(""), json!("ORDER_ALLOW_ORDERED")],
        "channel_open_init_options" => vec![json!(5), json!("connection-0"), json!(true), json!({})],
        "expiry" => vec![json!("never"), json!("at_height"), json!(5), json!({}), json!({"at_height":-1}), json!({"at_block":5}), json!({"at_height":5,"at_time":"5"})],
        _ => return None,
    };
    let i = r.below(l.len());
    Some(l.swap_remove(i))
}
const MANDATORY: &[&str] = &["messages", "connection_id", "counterparty_connection_id", "new_owner"];

/// the innermost object that holds the request's fields 
fn body<'a>(v: &'a mut Value, entry: &str) -> Option<&'a mut serde_json::Map<String, Value>> {
    if entry == "instantiate" || entry == "migrate" {
        return v.as_object_mut();
    }
    let o = v.as_object_mut()?.values_mut().next()?;
    if o.as_object().is_some_and(|x| x.contains_key("transfer_ownership")) {
        return o.as_object_mut()?.values_mut().next()?.as_object_mut();
    }
    o.as_object_mut()
}
fn rename(r: &mut Rng, k: &str) -> String {
    let camel: String = k.split('_').map(|p| p[..1].to_uppercase() + &p[1..]).collect();
    match r.below(12) {
        0 => format!("{k}s"),
        1 => k[..k.len() - 1].into(),
        2 => camel,
        3 => k.to_uppercase(),
        4 => format!(" {k}"),
        5 => k.replace('_', "-") + "_",
        _ => r.pick(OTHERS).into(),
    }
}
/// a text that is not a request of entry point `entry`, close to the request `base`
pub fn garble(r: &mut Rng, base: &Value, entry: &str) -> String {
    loop {
        let mut v = base.clone();
        let text = base.to_string();
        match r.below(11) {
            0 if entry == "execute" || entry == "query" => {
                let Some(o) = v.as_object_mut() else { continue };
                let k = o.keys().next().unwrap().clone();
                let x = o.remove(&k).unwrap();
                o.insert(rename(r, &k), x);
                return v.to_string();
            }
            1 if entry == "execute" || entry == "query" => {
                let Some(o) = v.as_object_mut() else { continue };
                let k = r.pick(OPS);
                if o.contains_key(k) {
                    continue;
                }
                o.insert(k.into(), json!({}));
                return v.to_string();
            }
            2 | 3 => {
                // without a mandatory field
                let Some(b) = body(&mut v, entry) else { continue };
                if entry == "instantiate" && r.pct(30) {
                    b.remove("channel_open_init_options");
                    return v.to_string();
                }
                let b = if b.get("channel_open_init_options").is_some_and(Value::is_object) { b["channel_open_init_options"].as_object_mut().unwrap() } else { b };
                let l: Vec<&str> = MANDATORY.iter().copied().filter(|k| b.contains_key(*k)).collect();
                if l.is_empty() {
                    continue;
                }
                b.remove(l[r.below(l.len())]);
                return v.to_string();
            }
            4..=7 => {
                // a field of another type
                let Some(b) = body(&mut v, entry) else { continue };
                let b = if b.get("channel_open_init_options").is_some_and(Value::is_object) && r.pct(60) { b["channel_open_init_options"].as_object_mut().unwrap() } else { b };
                let mut l: Vec<String> = b.keys().cloned().collect();
                if b.contains_key("messages") {
                    l.extend(["packet_memo", "timeout_seconds", "queries"].map(String::from));
                }
                if l.is_empty() {
                    continue;
                }
                let k = l[r.below(l.len())].clone();
                if k == "timeout_seconds" && r.pct(30) {
                    b.insert(k, json!("@"));
                    return v.to_string().replace("\"@\"", r.pick(&["18446744073709551616", "1e2", "60.0", "1e400", "0x10", "007"]));
                }
                let Some(x) = wrong(r, &k) else { continue };
                b.insert(k, x);
                return v.to_string();
            }
            8 | 9 => {
                // not quite JSON
                let n = r.below(text.len()).max(1);
                return match r.below(6) {
                    0 | 1 if text.is_char_boundary(n) => text[..n].to_string(),
                    2 => text + "}",
                    3 => text + r.pick(&[" x", "{}", ",", "null"]),
                    4 if text.contains('"') => text.replace('"', "'"),
                    5 if text.ends_with("}}") => text[..text.len() - 1].to_string() + ",}",
                    _ => continue,
                };
            }
            _ => {
                let known = v.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_else(|| "close_channel".into());
                let other = r.pick(&["null", "5", "true", "\"\"", "\"x\"", "", " ", "[5]", "@", "{\"@\":null}", "{\"@\":5}", "{\"@\":\"x\"}", "{\"\":{}}"]).replace("@", &known);
                let other = if other == known { format!("\"{known}\"") } else { other };
                // an address is an address
                // what a migration does not know, it ignores
                if entry == "migrate" && other.starts_with('{') {
                    continue;
                }
                if entry == "execute" && s(&json!(known)) == "update_ownership" && other.contains("null") {
                    continue;
                }
                return other;
            }
        }
    }
}
