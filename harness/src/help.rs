//! The crate's integration helpers, used as another contract would use them.
use crate::conv::*;
use crate::world::World;
use cosmwasm_std::testing::{MockApi, MockQuerier};
use cosmwasm_std::{
    instantiate2_address, to_json_binary, Addr, Api, Checksum, CodeInfoResponse, Coin, ContractResult, CosmosMsg, Empty, QuerierResult,
    QuerierWrapper, SystemError, SystemResult, WasmMsg, WasmQuery,
};
use cw_ica_controller::helpers::{CwIcaControllerCode, CwIcaControllerContract};
use serde_json::{json, Value};

type R<T> = Result<T, String>;
fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
/// the codes stored on the chain
const CODES: &[u64] = &[7, 8, 18_446_744_073_709_551_615];
fn checksum(code: u64) -> Checksum {
    Checksum::generate(&code.to_be_bytes())
}
fn fs(f: &[Coin]) -> Value {
    json!(f.iter().map(|c| json!({"denom":c.denom,"amount":c.amount.to_string()})).collect::<Vec<_>>())
}
/// what kind of message it is, with everything but the payload; and the payload
fn describe(m: &CosmosMsg) -> (String, Value, Value) {
    let p = |b: &[u8]| serde_json::from_slice(b).unwrap_or(json!({"unreadable":"t"}));
    match m {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
            ("execute".into(), json!({"k":"hm","t":"execute","addr":al(contract_addr),"funds":fs(funds)}), p(msg))
        }
        CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, label }) => (
            "instantiate".into(),
            json!({"k":"hm","t":"instantiate","code":code_id.to_string(),"label":label,"admin":admin.iter().map(|a| al(a)).collect::<Vec<_>>(),"funds":fs(funds)}),
            p(msg),
        ),
        CosmosMsg::Wasm(WasmMsg::Instantiate2 { admin, code_id, label, msg, funds, salt }) => (
            "instantiate2".into(),
            json!({"k":"hm","t":"instantiate2","code":code_id.to_string(),"label":label,"admin":admin.iter().map(|a| al(a)).collect::<Vec<_>>(),"funds":fs(funds),
                "salt":String::from_utf8_lossy(salt)}),
            p(msg),
        ),
        CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
            ("migrate".into(), json!({"k":"hm","t":"migrate","addr":al(contract_addr),"code":new_code_id.to_string()}), p(msg))
        }
        CosmosMsg::Wasm(WasmMsg::UpdateAdmin { contract_addr, admin }) => {
            ("update_admin".into(), json!({"k":"hm","t":"update_admin","addr":al(contract_addr),"admin":[al(admin)]}), Value::Null)
        }
        CosmosMsg::Wasm(WasmMsg::ClearAdmin { contract_addr }) => {
            ("clear_admin".into(), json!({"k":"hm","t":"clear_admin","addr":al(contract_addr),"admin":[]}), Value::Null)
        }
        _ => ("other".into(), json!({"k":"hm","t":"other"}), Value::Null),
    }
}
fn contract(to: &str) -> CwIcaControllerContract {
    CwIcaControllerContract::new(Addr::unchecked(addr(to)))
}
fn typed<T: serde::de::DeserializeOwned>(m: &Value) -> R<T> {
    cosmwasm_std::from_json(serde_json::to_vec(m).unwrap()).map_err(es)
}
pub fn representable(m: &Value) -> bool {
    typed::<cw_ica_controller::types::msg::ExecuteMsg>(m).is_ok()
}
pub fn execute(to: &str, m: &Value) -> R<(String, Value, Value)> {
    let m: cw_ica_controller::types::msg::ExecuteMsg = typed(m)?;
    Ok(describe(&contract(to).execute(m).map_err(es)?))
}
pub fn migrate(v: &Value) -> R<(String, Value, Value)> {
    let m: cw_ica_controller::types::msg::MigrateMsg = typed(&json!({}))?;
    Ok(describe(&contract(s(&v["to"])).migrate(m, s(&v["code"]).parse().unwrap()).map_err(es)?))
}
pub fn admin(e: &Value) -> Value {
    let c = contract(s(&e["to"]));
    describe(&match opt(&e["admin"]) {
        Some(a) => c.update_admin(addr(s(a))),
        None => c.clear_admin(),
    })
    .1
}
pub fn instantiate(w: &World, sender: &str, v: &Value, m: &Value) -> R<(Vec<Value>, Value)> {
    let m: cw_ica_controller::types::msg::InstantiateMsg = typed(m)?;
    let code = CwIcaControllerCode::new(s(&v["code"]).parse().unwrap());
    let admin = opt(&v["admin"]).map(|a| addr(s(a)));
    if s(&v["t"]) == "inst" {
        let (ty, eff, p) = describe(&code.instantiate(m, s(&v["label"]), admin).map_err(es)?);
        return if ty == "instantiate" { Ok((vec![eff], p)) } else { Ok((vec![eff], json!({}))) };
    }
    let api = MockApi::default();
    let mut q: MockQuerier<Empty> = MockQuerier::new(&[]);
    q.update_wasm(codes);
    let q = QuerierWrapper::<Empty>::new(&q);
    let mut env = w.env();
    env.contract.address = Addr::unchecked(addr(sender));
    let salt = s(&v["salt"]).to_string();
    let (msg, predicted) = code.instantiate2(&api, &q, &env, m, s(&v["label"]), admin, salt.clone()).map_err(es)?;
    let (ty, eff, p) = describe(&msg);
    if ty != "instantiate2" {
        return Ok((vec![eff], json!({})));
    }
    // the chain: address derived from the code's checksum, the creator and the salt of the message
    let CosmosMsg::Wasm(WasmMsg::Instantiate2 { code_id, salt, .. }) = &msg else { return Err("harness".into()) };
    let c = api.addr_canonicalize(&addr(sender)).map_err(es)?;
    let a = instantiate2_address(checksum(*code_id).as_slice(), &c, salt).map_err(es)?;
    let assigned = api.addr_humanize(&a).map_err(es)?;
    Ok((vec![eff, json!({"k":"predicted","a":tok(predicted.as_bytes())}), json!({"k":"assigned","a":tok(assigned.as_bytes())})], p))
}
fn codes(q: &WasmQuery) -> QuerierResult {
    match q {
        WasmQuery::CodeInfo { code_id } if CODES.contains(code_id) => {
            let r = CodeInfoResponse::new(*code_id, Addr::unchecked(addr("deployer")), checksum(*code_id));
            SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
        }
        WasmQuery::CodeInfo { code_id } => SystemResult::Err(SystemError::NoSuchCode { code_id: *code_id }),
        _ => SystemResult::Err(SystemError::Unknown {}),
    }
}
/// what the query helpers return, in the form of an observation
pub fn query(w: &World, to: &str) -> R<Value> {
    let mut q: MockQuerier<Empty> = MockQuerier::new(&[]);
    let w2 = w.clone();
    q.update_wasm(move |q| match q {
        WasmQuery::Smart { contract_addr, msg } if *contract_addr == addr("self") => {
            match w2.query(serde_json::from_slice(msg).unwrap_or(Value::Null)) {
                Ok(v) => SystemResult::Ok(ContractResult::Ok(serde_json::to_vec(&v).unwrap().into())),
                Err(x) => SystemResult::Ok(ContractResult::Err(x)),
            }
        }
        _ => SystemResult::Err(SystemError::NoSuchContract { addr: "x".into() }),
    });
    let q = QuerierWrapper::<Empty>::new(&q);
    let c = contract(to);
    let h = c.query(&q);
    let j = |v: Value| v;
    let own = serde_json::to_value(h.ownership().map_err(es)?).map_err(es).map(j)?;
    let st = serde_json::to_value(h.get_contract_state().map_err(es)?).map_err(es)?;
    let ch = h.get_channel().ok().map(|c| serde_json::to_value(c).unwrap());
    let mut o = crate::world::observation(Some(&own), Some(&st), ch.as_ref());
    o["k"] = json!("hq");
    Ok(o)
}
