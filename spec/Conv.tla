-------------------------------- MODULE Conv --------------------------------
(* What a requested message or query means on the host chain, and what the  *)
(* host's answer to a query means for the requester.                        *)
(*                                                                          *)
(* Protobuf values are records of strings; an embedded message is an option *)
(* and a repeated field a sequence.  The harness decodes the bytes with its *)
(* own codec (harness/src/proto.rs).                                        *)
EXTENDS Base

(* ------------------------------ messages ------------------------------- *)
SupportedMsg == {"stargate", "bank_send", "ibc_transfer", "wasm_exec", "wasm_inst", "wasm_inst2",
  "wasm_migrate", "wasm_upd", "wasm_clear", "gov_vote", "gov_votew", "stk_delegate", "stk_undelegate",
  "stk_redelegate", "dist_withdraw", "dist_setaddr", "dist_fund"}
SupportedQuery == {"q_stargate", "bank_balance", "bank_all", "bank_meta", "bank_allmeta", "bank_supply",
  "wasm_raw", "wasm_smart", "wasm_info", "stk_val", "stk_vals", "stk_del", "stk_dels", "stk_bonded"}

VoteNumber(o) == CASE o = "yes" -> "1" [] o = "abstain" -> "2" [] o = "no" -> "3" [] o = "no_with_veto" -> "4"
OrEmpty(o) == IF IsSome(o) THEN Get(o) ELSE ""
Zero(o) == IF IsSome(o) THEN Get(o) ELSE "0"

MsgUrl(m) ==
  CASE m.t = "stargate"       -> m.url
    [] m.t = "bank_send"      -> "/cosmos.bank.v1beta1.MsgSend"
    [] m.t = "ibc_transfer"   -> "/ibc.applications.transfer.v1.MsgTransfer"
    [] m.t = "wasm_exec"      -> "/cosmwasm.wasm.v1.MsgExecuteContract"
    [] m.t = "wasm_inst"      -> "/cosmwasm.wasm.v1.MsgInstantiateContract"
    [] m.t = "wasm_inst2"     -> "/cosmwasm.wasm.v1.MsgInstantiateContract2"
    [] m.t = "wasm_migrate"   -> "/cosmwasm.wasm.v1.MsgMigrateContract"
    [] m.t = "wasm_upd"       -> "/cosmwasm.wasm.v1.MsgUpdateAdmin"
    [] m.t = "wasm_clear"     -> "/cosmwasm.wasm.v1.MsgClearAdmin"
    [] m.t = "gov_vote"       -> "/cosmos.gov.v1beta1.MsgVote"
    [] m.t = "gov_votew"      -> "/cosmos.gov.v1.MsgVoteWeighted"
    [] m.t = "stk_delegate"   -> "/cosmos.staking.v1beta1.MsgDelegate"
    [] m.t = "stk_undelegate" -> "/cosmos.staking.v1beta1.MsgUndelegate"
    [] m.t = "stk_redelegate" -> "/cosmos.staking.v1beta1.MsgBeginRedelegate"
    [] m.t = "dist_withdraw"  -> "/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward"
    [] m.t = "dist_setaddr"   -> "/cosmos.distribution.v1beta1.MsgSetWithdrawAddress"
    [] m.t = "dist_fund"      -> "/cosmos.distribution.v1beta1.MsgFundCommunityPool"

\* the decoded content of the packet entry for message m sent by account ica
MsgBody(m, ica) ==
  CASE m.t = "bank_send" -> [from_address |-> ica, to_address |-> m.to, amount |-> m.amount]
    [] m.t = "ibc_transfer" ->
         [source_port |-> "transfer", source_channel |-> m.chan, token |-> Some(m.coin), sender |-> ica,
          receiver |-> m.to,
          timeout_height |-> IF IsSome(m.th) THEN Some([revision_number |-> Get(m.th).rev, revision_height |-> Get(m.th).h]) ELSE None,
          timeout_timestamp |-> Zero(m.ts), memo |-> OrEmpty(m.memo)]
    [] m.t = "wasm_exec" -> [sender |-> ica, contract |-> m.contract, msg |-> m.msg, funds |-> m.funds]
    [] m.t = "wasm_inst" -> [sender |-> ica, admin |-> OrEmpty(m.admin), code_id |-> m.code, label |-> m.label, msg |-> m.msg, funds |-> m.funds]
    [] m.t = "wasm_inst2" -> [sender |-> ica, admin |-> OrEmpty(m.admin), code_id |-> m.code, label |-> m.label, msg |-> m.msg,
                              funds |-> m.funds, salt |-> m.salt, fix_msg |-> "false"]
    [] m.t = "wasm_migrate" -> [sender |-> ica, contract |-> m.contract, code_id |-> m.code, msg |-> m.msg]
    [] m.t = "wasm_upd" -> [sender |-> ica, new_admin |-> m.admin, contract |-> m.contract]
    [] m.t = "wasm_clear" -> [sender |-> ica, contract |-> m.contract]
    [] m.t = "gov_vote" -> [proposal_id |-> m.id, voter |-> ica, option |-> VoteNumber(m.opt)]
    [] m.t = "gov_votew" -> [proposal_id |-> m.id, voter |-> ica, metadata |-> "",
                             options |-> [i \in 1..Len(m.opts) |-> [option |-> VoteNumber(m.opts[i].opt), weight |-> m.opts[i].weight]]]
    [] m.t \in {"stk_delegate", "stk_undelegate"} -> [delegator_address |-> ica, validator_address |-> m.val, amount |-> Some(m.coin)]
    [] m.t = "stk_redelegate" -> [delegator_address |-> ica, validator_src_address |-> m.src, validator_dst_address |-> m.dst, amount |-> Some(m.coin)]
    [] m.t = "dist_withdraw" -> [delegator_address |-> ica, validator_address |-> m.val]
    [] m.t = "dist_setaddr" -> [delegator_address |-> ica, withdraw_address |-> m.addr]
    [] m.t = "dist_fund" -> [amount |-> m.amount, depositor |-> ica]

\* the packet entry for m; raw protobuf messages are compared byte for byte
MsgEntry(m, ica) == IF m.t = "stargate" THEN [url |-> m.url, raw |-> m.value]
                    ELSE [url |-> MsgUrl(m), v |-> MsgBody(m, ica)]
EntryMatches(x, y) ==   \* x specified, y observed
  IF "raw" \in DOMAIN x THEN x.url = y.url /\ x.raw = y.raw
  ELSE x.url = y.url /\ x.v = y.v

(* ------------------------------- queries ------------------------------- *)
QueryUrl == "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe"
QueryPath(q) ==
  CASE q.t = "q_stargate"   -> q.path
    [] q.t = "bank_balance" -> "/cosmos.bank.v1beta1.Query/Balance"
    [] q.t = "bank_all"     -> "/cosmos.bank.v1beta1.Query/AllBalances"
    [] q.t = "bank_meta"    -> "/cosmos.bank.v1beta1.Query/DenomMetadata"
    [] q.t = "bank_allmeta" -> "/cosmos.bank.v1beta1.Query/DenomsMetadata"
    [] q.t = "bank_supply"  -> "/cosmos.bank.v1beta1.Query/SupplyOf"
    [] q.t = "wasm_raw"     -> "/cosmwasm.wasm.v1.Query/RawContractState"
    [] q.t = "wasm_smart"   -> "/cosmwasm.wasm.v1.Query/SmartContractState"
    [] q.t = "wasm_info"    -> "/cosmwasm.wasm.v1.Query/ContractInfo"
    [] q.t = "stk_val"      -> "/cosmos.staking.v1beta1.Query/Validator"
    [] q.t = "stk_vals"     -> "/cosmos.staking.v1beta1.Query/Validators"
    [] q.t = "stk_del"      -> "/cosmos.staking.v1beta1.Query/Delegation"
    [] q.t = "stk_dels"     -> "/cosmos.staking.v1beta1.Query/DelegatorDelegations"
    [] q.t = "stk_bonded"   -> "/cosmos.staking.v1beta1.Query/Params"
QueryBody(q) ==
  CASE q.t = "bank_balance" -> [address |-> q.addr, denom |-> q.denom]
    [] q.t = "bank_all"     -> [address |-> q.addr, pagination |-> None, resolve_denom |-> "false"]
    [] q.t \in {"bank_meta", "bank_supply"} -> [denom |-> q.denom]
    [] q.t = "bank_allmeta" -> [pagination |-> IF IsSome(q.pg)
           THEN Some([key |-> OrEmpty(Get(q.pg).key), offset |-> "0", limit |-> Get(q.pg).limit, count_total |-> "false", reverse |-> Get(q.pg).rev])
           ELSE None]
    [] q.t = "wasm_raw"     -> [address |-> q.addr, query_data |-> q.key]
    [] q.t = "wasm_smart"   -> [address |-> q.addr, query_data |-> q.msg]
    [] q.t = "wasm_info"    -> [address |-> q.addr]
    [] q.t = "stk_val"      -> [validator_addr |-> q.addr]
    [] q.t = "stk_vals"     -> [status |-> "", pagination |-> None]
    [] q.t = "stk_del"      -> [delegator_addr |-> q.del, validator_addr |-> q.val]
    [] q.t = "stk_dels"     -> [delegator_addr |-> q.del, pagination |-> None]
    [] q.t = "stk_bonded"   -> <<>>
QueryEntry(q) == IF q.t = "q_stargate" THEN [path |-> q.path, raw |-> q.data]
                 ELSE [path |-> QueryPath(q), v |-> QueryBody(q)]
QueryMatches(x, y) == IF "raw" \in DOMAIN x THEN x.path = y.path /\ x.raw = y.raw
                      ELSE x.path = y.path /\ x.v = y.v

(* ------------------------------- answers ------------------------------- *)
(* Ans(q, a): the response delivered for query q when the host's answer is  *)
(* a = [k |-> "v", v |-> decoded] or [k |-> "raw", b |-> bytes].  None if   *)
(* the answer is malformed, which makes the whole result an error.          *)
NoCoin == [denom |-> "", amount |-> "0"]
BadCoin(o) == IsSome(o) /\ ~IsAmount(Get(o).amount)
CoinOr(o) == IF IsSome(o) THEN Get(o) ELSE NoCoin
NoMeta == [description |-> "", base |-> "", display |-> "", name |-> "", symbol |-> "", uri |-> "", uri_hash |-> "", denom_units |-> <<>>]
Rates(v) == IF IsSome(v.commission) THEN Get(v.commission).commission_rates ELSE None
BadValidator(v) == LET r == Rates(v) IN
  \/ ~IsSome(r)
  \/ ~IsDecimal(Get(r).rate) \/ ~IsDecimal(Get(r).max_rate) \/ ~IsDecimal(Get(r).max_change_rate)
ValidatorOf(v) == LET r == Get(Rates(v)) IN
  [address |-> v.operator_address, commission |-> r.rate, max_commission |-> r.max_rate, max_change_rate |-> r.max_change_rate]
\* a delegation entry without the delegation itself is no delegation
HasDel(d) == IsSome(d.delegation)
BadDel(d) == HasDel(d) /\ (~IsSome(d.balance) \/ BadCoin(d.balance))
DelOf(d) == [delegator |-> Get(d.delegation).delegator_address, validator |-> Get(d.delegation).validator_address, amount |-> Get(d.balance)]

Ans(q, a) ==
  IF q.t = "q_stargate" THEN Some([t |-> "q_stargate", data |-> a.b, path |-> q.path])
  ELSE IF a.k = "raw" THEN None
  ELSE LET v == a.v IN
  CASE q.t = "bank_balance" -> IF BadCoin(v.balance) THEN None ELSE Some([t |-> q.t, amount |-> CoinOr(v.balance)])
    [] q.t = "bank_supply"  -> IF BadCoin(v.amount) THEN None ELSE Some([t |-> q.t, amount |-> CoinOr(v.amount)])
    [] q.t = "bank_all"     -> IF \E i \in 1..Len(v.balances) : ~IsAmount(v.balances[i].amount) THEN None
                               ELSE Some([t |-> q.t, amount |-> v.balances])
    [] q.t = "bank_meta"    -> Some([t |-> q.t, metadata |-> IF IsSome(v.metadata) THEN Get(v.metadata) ELSE NoMeta])
    [] q.t = "bank_allmeta" -> Some([t |-> q.t, metadata |-> v.metadatas,
                                     next_key |-> IF IsSome(v.pagination) THEN Some(Get(v.pagination).next_key) ELSE None])
    [] q.t = "wasm_info"    -> Some([t |-> q.t, info |-> IF ~IsSome(v.contract_info) THEN None
           ELSE LET i == Get(v.contract_info) IN
                Some([code_id |-> i.code_id, creator |-> i.creator, pinned |-> "false",
                      admin |-> IF i.admin = "" THEN None ELSE Some(i.admin),
                      ibc_port |-> IF i.ibc_port_id = "" THEN None ELSE Some(i.ibc_port_id)])])
    [] q.t = "wasm_raw"     -> Some([t |-> q.t, data |-> IF v.data = "" THEN None ELSE Some(v.data)])
    [] q.t = "wasm_smart"   -> Some([t |-> q.t, data |-> v.data])
    [] q.t = "stk_bonded"   -> IF ~IsSome(v.params) THEN None ELSE Some([t |-> q.t, denom |-> Get(v.params).bond_denom])
    [] q.t = "stk_val"      -> IF ~IsSome(v.validator) THEN Some([t |-> q.t, validator |-> None])
                               ELSE IF BadValidator(Get(v.validator)) THEN None
                               ELSE Some([t |-> q.t, validator |-> Some(ValidatorOf(Get(v.validator)))])
    [] q.t = "stk_vals"     -> IF \E i \in 1..Len(v.validators) : BadValidator(v.validators[i]) THEN None
                               ELSE Some([t |-> q.t, validators |-> [i \in 1..Len(v.validators) |-> ValidatorOf(v.validators[i])]])
    [] q.t = "stk_del"      -> IF ~IsSome(v.delegation_response) \/ (IsSome(v.delegation_response) /\ ~HasDel(Get(v.delegation_response)))
                               THEN Some([t |-> q.t, delegation |-> None])
                               ELSE IF BadDel(Get(v.delegation_response)) THEN None
                               ELSE Some([t |-> q.t, delegation |-> Some(DelOf(Get(v.delegation_response)))])
    [] q.t = "stk_dels"     -> IF \E i \in 1..Len(v.delegation_responses) : BadDel(v.delegation_responses[i]) THEN None
                               ELSE LET ds == SelectSeq(v.delegation_responses, HasDel)
                                    IN Some([t |-> q.t, delegations |-> [i \in 1..Len(ds) |-> DelOf(ds[i])]])

\* the result for queries qs when the host answered with the sequence of answers as at height h
QueryResult(qs, h, as) ==
  IF Len(qs) # Len(as) THEN [k |-> "err"]
  ELSE LET rs == [i \in 1..Len(qs) |-> Ans(qs[i], as[i])] IN
       IF \E i \in 1..Len(rs) : rs[i] = None THEN [k |-> "err"]
       ELSE [k |-> "ok", h |-> h, rs |-> [i \in 1..Len(rs) |-> Get(rs[i])]]
=============================================================================
