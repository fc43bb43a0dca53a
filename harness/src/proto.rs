//! A small, schema-driven protobuf codec that is independent of the crates the code under test
//! uses.  Decoded values are "spec level" JSON: every leaf is a string, message fields are 0/1
//! element arrays, repeated fields are arrays.  Fields that are absent on the wire take their
//! proto3 default, unknown fields are reported under "_unk".
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub enum Kind {
    Str,
    Bytes,
    Uint,
    Int,
    Bool,
    Msg(&'static str),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub num: u64,
    pub kind: Kind,
    pub rep: bool,
}

/// name: field=number kind, ...   kinds: s b u i o or a message name, prefixed by * if repeated
const SCHEMA: &str = "
Coin: denom=1 s, amount=2 s
Any: type_url=1 s, value=2 b
Height: revision_number=1 u, revision_height=2 u
PageRequest: key=1 b, offset=2 u, limit=3 u, count_total=4 o, reverse=5 o
PageResponse: next_key=1 b, total=2 u
CosmosTx: messages=1 *Any
TxMsgData: data=1 *b, msg_responses=2 *Any
Counterparty: port_id=1 s, channel_id=2 s
Channel: state=1 i, ordering=2 i, counterparty=3 Counterparty, connection_hops=4 *s, version=5 s
/ibc.core.channel.v1.MsgChannelOpenInit: port_id=1 s, channel=2 Channel, signer=3 s
SendResp: sequence=1 u
/cosmos.bank.v1beta1.MsgSend: from_address=1 s, to_address=2 s, amount=3 *Coin
/ibc.applications.transfer.v1.MsgTransfer: source_port=1 s, source_channel=2 s, token=3 Coin, sender=4 s, receiver=5 s, timeout_height=6 Height, timeout_timestamp=7 u, memo=8 s
/cosmwasm.wasm.v1.MsgExecuteContract: sender=1 s, contract=2 s, msg=3 b, funds=5 *Coin
/cosmwasm.wasm.v1.MsgInstantiateContract: sender=1 s, admin=2 s, code_id=3 u, label=4 s, msg=5 b, funds=6 *Coin
/cosmwasm.wasm.v1.MsgInstantiateContract2: sender=1 s, admin=2 s, code_id=3 u, label=4 s, msg=5 b, funds=6 *Coin, salt=7 b, fix_msg=8 o
/cosmwasm.wasm.v1.MsgMigrateContract: sender=1 s, contract=2 s, code_id=3 u, msg=4 b
/cosmwasm.wasm.v1.MsgUpdateAdmin: sender=1 s, new_admin=2 s, contract=3 s
/cosmwasm.wasm.v1.MsgClearAdmin: sender=1 s, contract=3 s
/cosmos.gov.v1beta1.MsgVote: proposal_id=1 u, voter=2 s, option=3 i
/cosmos.gov.v1.MsgVote: proposal_id=1 u, voter=2 s, option=3 i, metadata=4 s
WeightedVoteOption: option=1 i, weight=2 s
/cosmos.gov.v1.MsgVoteWeighted: proposal_id=1 u, voter=2 s, options=3 *WeightedVoteOption, metadata=4 s
/cosmos.gov.v1beta1.MsgVoteWeighted: proposal_id=1 u, voter=2 s, options=3 *WeightedVoteOption
/cosmos.staking.v1beta1.MsgDelegate: delegator_address=1 s, validator_address=2 s, amount=3 Coin
/cosmos.staking.v1beta1.MsgUndelegate: delegator_address=1 s, validator_address=2 s, amount=3 Coin
/cosmos.staking.v1beta1.MsgBeginRedelegate: delegator_address=1 s, validator_src_address=2 s, validator_dst_address=3 s, amount=4 Coin
/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward: delegator_address=1 s, validator_address=2 s
/cosmos.distribution.v1beta1.MsgSetWithdrawAddress: delegator_address=1 s, withdraw_address=2 s
/cosmos.distribution.v1beta1.MsgFundCommunityPool: amount=1 *Coin, depositor=2 s
AbciQueryRequest: path=1 s, data=2 b
/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe: signer=1 s, requests=2 *AbciQueryRequest
MsgModuleQuerySafeResponse: height=1 u, responses=2 *b
req/cosmos.bank.v1beta1.Query/Balance: address=1 s, denom=2 s
req/cosmos.bank.v1beta1.Query/AllBalances: address=1 s, pagination=2 PageRequest, resolve_denom=3 o
req/cosmos.bank.v1beta1.Query/DenomMetadata: denom=1 s
req/cosmos.bank.v1beta1.Query/DenomsMetadata: pagination=1 PageRequest
req/cosmos.bank.v1beta1.Query/SupplyOf: denom=1 s
req/cosmos.staking.v1beta1.Query/Validator: validator_addr=1 s
req/cosmos.staking.v1beta1.Query/Validators: status=1 s, pagination=2 PageRequest
req/cosmos.staking.v1beta1.Query/Delegation: delegator_addr=1 s, validator_addr=2 s
req/cosmos.staking.v1beta1.Query/DelegatorDelegations: delegator_addr=1 s, pagination=2 PageRequest
req/cosmos.staking.v1beta1.Query/Params:
req/cosmwasm.wasm.v1.Query/ContractInfo: address=1 s
req/cosmwasm.wasm.v1.Query/RawContractState: address=1 s, query_data=2 b
req/cosmwasm.wasm.v1.Query/SmartContractState: address=1 s, query_data=2 b
DenomUnit: denom=1 s, exponent=2 u, aliases=3 *s
Metadata: description=1 s, denom_units=2 *DenomUnit, base=3 s, display=4 s, name=5 s, symbol=6 s, uri=7 s, uri_hash=8 s
CommissionRates: rate=1 s, max_rate=2 s, max_change_rate=3 s
Commission: commission_rates=1 CommissionRates
Description: moniker=1 s, identity=2 s
Validator: operator_address=1 s, jailed=3 o, status=4 i, tokens=5 s, delegator_shares=6 s, description=7 Description, commission=10 Commission, min_self_delegation=11 s
DelegationInner: delegator_address=1 s, validator_address=2 s, shares=3 s
DelegationResponse: delegation=1 DelegationInner, balance=2 Coin
Duration: seconds=1 u
StakingParams: unbonding_time=1 Duration, max_validators=2 u, max_entries=3 u, historical_entries=4 u, bond_denom=5 s, min_commission_rate=6 s
WasmContractInfo: code_id=1 u, creator=2 s, admin=3 s, label=4 s, ibc_port_id=6 s
resp/cosmos.bank.v1beta1.Query/Balance: balance=1 Coin
resp/cosmos.bank.v1beta1.Query/AllBalances: balances=1 *Coin, pagination=2 PageResponse
resp/cosmos.bank.v1beta1.Query/DenomMetadata: metadata=1 Metadata
resp/cosmos.bank.v1beta1.Query/DenomsMetadata: metadatas=1 *Metadata, pagination=2 PageResponse
resp/cosmos.bank.v1beta1.Query/SupplyOf: amount=1 Coin
resp/cosmos.staking.v1beta1.Query/Validator: validator=1 Validator
resp/cosmos.staking.v1beta1.Query/Validators: validators=1 *Validator, pagination=2 PageResponse
resp/cosmos.staking.v1beta1.Query/Delegation: delegation_response=1 DelegationResponse
resp/cosmos.staking.v1beta1.Query/DelegatorDelegations: delegation_responses=1 *DelegationResponse, pagination=2 PageResponse
resp/cosmos.staking.v1beta1.Query/Params: params=1 StakingParams
resp/cosmwasm.wasm.v1.Query/ContractInfo: address=1 s, contract_info=2 WasmContractInfo
resp/cosmwasm.wasm.v1.Query/RawContractState: data=1 b
resp/cosmwasm.wasm.v1.Query/SmartContractState: data=1 b
";

pub fn schema() -> &'static HashMap<&'static str, Vec<Field>> {
    static S: OnceLock<HashMap<&'static str, Vec<Field>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut m = HashMap::new();
        for line in SCHEMA.lines().filter(|l| !l.trim().is_empty()) {
            let (name, rest) = line.split_once(':').expect("schema line");
            let mut fields = vec![];
            for f in rest.split(',').map(str::trim).filter(|f| !f.is_empty()) {
                let (nm, r) = f.split_once('=').expect("schema field");
                let (num, k) = r.split_once(' ').expect("schema kind");
                let (rep, k) = k.strip_prefix('*').map_or((false, k), |k| (true, k));
                let kind = match k {
                    "s" => Kind::Str,
                    "b" => Kind::Bytes,
                    "u" => Kind::Uint,
                    "i" => Kind::Int,
                    "o" => Kind::Bool,
                    other => Kind::Msg(other),
                };
                fields.push(Field { name: nm, num: num.parse().unwrap(), kind, rep });
            }
            m.insert(name.trim(), fields);
        }
        for fs in m.values() {
            for f in fs {
                if let Kind::Msg(n) = f.kind {
                    assert!(m.contains_key(n), "schema: unknown {n}");
                }
            }
        }
        m
    })
}

pub fn b64(b: &[u8]) -> String {
    cosmwasm_std::Binary::from(b).to_base64()
}
pub fn unb64(s: &str) -> Vec<u8> {
    cosmwasm_std::Binary::from_base64(s).expect("harness: base64").to_vec()
}

fn varint(buf: &[u8], i: &mut usize) -> Option<u64> {
    let mut v: u64 = 0;
    for k in 0..10 {
        let b = *buf.get(*i)?;
        *i += 1;
        v |= u64::from(b & 0x7f).checked_shl(7 * k)?;
        if b & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}

fn default_of(f: &Field) -> Value {
    if f.rep {
        return json!([]);
    }
    match f.kind {
        Kind::Str | Kind::Bytes => json!(""),
        Kind::Uint | Kind::Int => json!("0"),
        Kind::Bool => json!("false"),
        Kind::Msg(_) => json!([]),
    }
}

pub fn decode(name: &str, buf: &[u8]) -> Option<Value> {
    let fields = schema().get(name)?;
    let mut out = Map::new();
    for f in fields {
        out.insert(f.name.to_string(), default_of(f));
    }
    let mut unk: Vec<Value> = vec![];
    let mut i = 0;
    while i < buf.len() {
        let key = varint(buf, &mut i)?;
        let (num, wt) = (key >> 3, key & 7);
        let (vi, by): (u64, &[u8]) = match wt {
            0 => (varint(buf, &mut i)?, &[]),
            2 => {
                let n = usize::try_from(varint(buf, &mut i)?).ok()?;
                let s = buf.get(i..i.checked_add(n)?)?;
                i += n;
                (0, s)
            }
            1 => {
                buf.get(i..i + 8)?;
                i += 8;
                (0, &[])
            }
            5 => {
                buf.get(i..i + 4)?;
                i += 4;
                (0, &[])
            }
            _ => return None,
        };
        let Some(f) = fields.iter().find(|f| f.num == num) else {
            unk.push(json!(format!("{num}:{wt}:{vi}:{}", b64(by))));
            continue;
        };
        let val = match (&f.kind, wt) {
            (Kind::Str, 2) => json!(String::from_utf8(by.to_vec()).ok()?),
            (Kind::Bytes, 2) => json!(b64(by)),
            (Kind::Uint, 0) => json!(vi.to_string()),
            (Kind::Int, 0) => json!((vi as i64).to_string()),
            (Kind::Bool, 0) => json!(if vi != 0 { "true" } else { "false" }),
            (Kind::Msg(n), 2) => decode(n, by)?,
            _ => return None,
        };
        let slot = out.get_mut(f.name).unwrap();
        if f.rep {
            slot.as_array_mut().unwrap().push(val);
        } else if let Kind::Msg(_) = f.kind {
            *slot = json!([val]);
        } else {
            *slot = val;
        }
    }
    if !unk.is_empty() {
        out.insert("_unk".into(), json!(unk));
    }
    Some(Value::Object(out))
}

fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn put_len(num: u64, b: &[u8], out: &mut Vec<u8>) {
    put_varint(num << 3 | 2, out);
    put_varint(b.len() as u64, out);
    out.extend_from_slice(b);
}

/// Encodes spec-level JSON; missing fields are left out, as are proto3 defaults.
pub fn encode(name: &str, v: &Value) -> Vec<u8> {
    let fields = schema().get(name).unwrap_or_else(|| panic!("harness: schema {name}"));
    let obj = v.as_object().unwrap_or_else(|| panic!("harness: object for {name}: {v}"));
    let mut out = vec![];
    let one = |f: &Field, x: &Value, out: &mut Vec<u8>, force: bool| match &f.kind {
        Kind::Str => {
            let s = x.as_str().expect("harness: str");
            if force || !s.is_empty() {
                put_len(f.num, s.as_bytes(), out)
            }
        }
        Kind::Bytes => {
            let s = unb64(x.as_str().expect("harness: b64"));
            if force || !s.is_empty() {
                put_len(f.num, &s, out)
            }
        }
        Kind::Uint | Kind::Int => {
            let s = x.as_str().expect("harness: num");
            let n: u64 = s.parse::<u64>().unwrap_or_else(|_| s.parse::<i64>().unwrap() as u64);
            if force || n != 0 {
                put_varint(f.num << 3, out);
                put_varint(n, out)
            }
        }
        Kind::Bool => {
            if x.as_str().expect("harness: bool") == "true" {
                put_varint(f.num << 3, out);
                put_varint(1, out)
            }
        }
        Kind::Msg(n) => put_len(f.num, &encode(n, x), out),
    };
    for f in fields {
        let Some(x) = obj.get(f.name) else { continue };
        if f.rep || matches!(f.kind, Kind::Msg(_)) {
            for e in x.as_array().unwrap_or_else(|| panic!("harness: array for {}", f.name)) {
                one(f, e, &mut out, true);
            }
        } else {
            one(f, x, &mut out, false);
        }
    }
    out
}
