//! A receiver contract message built with the repository's own macro crate (/repo/derive).
use cosmwasm_schema::cw_serde;
use serde_json::Value;

#[local_derive::ica_callback_execute]
#[cw_serde]
pub enum ReceiverMsg {
    Ping {},
    Other { a: u64, b: String },
}

#[local_derive::ica_callback_execute]
#[cw_serde]
pub enum BareMsg {}

#[local_derive::ica_callback_execute]
#[cw_serde]
pub enum MixedMsg {
    Unit,
    One(u64),
    Pair(u64, String),
    Named { a: Option<u64>, b: Vec<String> },
    #[serde(rename = "renamed_one")]
    Renamed { x: bool },
    Empty {},
    ReceiveSomethingElse(String),
    Nested(Box<BareMsg>),
}

/// many messages, the last ones of which must not get lost
#[local_derive::ica_callback_execute]
#[cw_serde]
pub enum LargeMsg {
    A0 {}, A1 {}, A2 {}, A3 {}, A4 {}, A5 {}, A6 {}, A7 {}, A8 {}, A9 {}, B0 {}, B1 {}, B2 {}, B3 {}, B4 {}, B5 {}, B6 {}, B7 {}, B8 {}, B9 {},
    C0 {}, C1 {}, C2 {}, C3 {}, C4 {}, C5 {}, C6 {}, C7 {}, C8 {}, C9 {}, D0 {}, D1 {}, D2 {}, D3 {}, D4 {}, D5 {}, D6 {}, D7 {}, D8 {}, D9 {},
}

/// generic, bounded, and with a type of its own as the only member
#[local_derive::ica_callback_execute]
#[cw_serde]
pub enum GenericMsg<T> {
    Extension { msg: T },
    Update(T),
}

/// `bytes` survive being read as `T` and written again
fn same<T: serde::de::DeserializeOwned + serde::Serialize>(bytes: &[u8]) -> bool {
    let Ok(m) = cosmwasm_std::from_json::<T>(bytes) else { return false };
    let Ok(back) = cosmwasm_std::to_json_vec(&m) else { return false };
    matches!((serde_json::from_slice::<Value>(bytes), serde_json::from_slice::<Value>(&back)), (Ok(a), Ok(b)) if a == b)
}

/// "t" if macro-built receivers parse the callback, route it to their callback variant, and
/// recover its contents unchanged.
pub fn recovers(bytes: &[u8]) -> &'static str {
    let Ok(m) = cosmwasm_std::from_json::<ReceiverMsg>(bytes) else { return "f" };
    let ReceiverMsg::ReceiveIcaCallback(inner) = &m else { return "f" };
    let Ok(direct) = cosmwasm_std::to_json_vec(inner) else { return "f" };
    let (Ok(a), Ok(d)) = (serde_json::from_slice::<Value>(bytes), serde_json::from_slice::<Value>(&direct)) else { return "f" };
    let routed = matches!(cosmwasm_std::from_json::<MixedMsg>(bytes), Ok(MixedMsg::ReceiveIcaCallback(_)))
        && matches!(cosmwasm_std::from_json::<LargeMsg>(bytes), Ok(LargeMsg::ReceiveIcaCallback(_)))
        && matches!(cosmwasm_std::from_json::<GenericMsg<u64>>(bytes), Ok(GenericMsg::ReceiveIcaCallback(_)))
        && matches!(cosmwasm_std::from_json::<BareMsg>(bytes), Ok(BareMsg::ReceiveIcaCallback(_)));
    if a.get("receive_ica_callback") == Some(&d) && routed && same::<ReceiverMsg>(bytes) && same::<MixedMsg>(bytes) && same::<BareMsg>(bytes) {
        "t"
    } else {
        "f"
    }
}

/// the receivers' own messages keep working next to the callback variant
pub fn own_messages_work() -> bool {
    let own: &[&str] = &[r#"{"ping":{}}"#, r#"{"other":{"a":1,"b":"x"}}"#];
    let mixed: &[&str] = &[
        r#""unit""#, r#"{"one":7}"#, r#"{"pair":[1,"x"]}"#, r#"{"named":{"a":3,"b":["p","q"]}}"#, r#"{"named":{"a":null,"b":[]}}"#,
        r#"{"renamed_one":{"x":true}}"#, r#"{"empty":{}}"#, r#"{"receive_something_else":"y"}"#,
    ];
    let large = ["a", "b", "c", "d"].iter().all(|l| (0..10).all(|i| same::<LargeMsg>(format!(r#"{{"{l}{i}":{{}}}}"#).as_bytes())));
    let generic = same::<GenericMsg<u64>>(br#"{"extension":{"msg":7}}"#) && same::<GenericMsg<Vec<String>>>(br#"{"update":["x"]}"#);
    large && generic && own.iter().all(|m| same::<ReceiverMsg>(m.as_bytes()))
        && mixed.iter().all(|m| same::<MixedMsg>(m.as_bytes()))
        && cosmwasm_std::from_json::<ReceiverMsg>(br#"{"receive_ica_callback":{}}"#).is_err()
        && cosmwasm_std::from_json::<BareMsg>(br#"{"ping":{}}"#).is_err()
}
