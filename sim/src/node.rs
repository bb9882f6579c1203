//! A party that holds values and answers questions about them. This file is compiled twice: into the
//! simulator with the full library, and into the peer with the library built without std.
use core::str::FromStr;
use fuel_tx::field::{
    BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Maturity as _,
    Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _,
};
use fuel_tx::*;
use fuel_types::bytes::SizedBytes as _;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kd {
    Tx,
    Script,
    Create,
    Mint,
    Input,
    Output,
    Witness,
    Slot,
    Utxo,
    Ptr,
    Receipt,
    Params,
    Contract,
    Fee,
    Error,
}
pub const KDS: [Kd; 15] = [
    Kd::Tx,
    Kd::Script,
    Kd::Create,
    Kd::Mint,
    Kd::Input,
    Kd::Output,
    Kd::Witness,
    Kd::Slot,
    Kd::Utxo,
    Kd::Ptr,
    Kd::Receipt,
    Kd::Params,
    Kd::Contract,
    Kd::Fee,
    Kd::Error,
];
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Tx(Transaction),
    Script(Script),
    Create(Create),
    Mint(Mint),
    Input(Input),
    Output(Output),
    Witness(Witness),
    Slot(StorageSlot),
    Utxo(UtxoId),
    Ptr(TxPointer),
    Receipt(Receipt),
    Params(ConsensusParameters),
    Contract(Contract),
    Fee(TransactionFee),
    Error(CheckError),
}
macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Val::Tx($x) => $e,
            Val::Script($x) => $e,
            Val::Create($x) => $e,
            Val::Mint($x) => $e,
            Val::Input($x) => $e,
            Val::Output($x) => $e,
            Val::Witness($x) => $e,
            Val::Slot($x) => $e,
            Val::Utxo($x) => $e,
            Val::Ptr($x) => $e,
            Val::Receipt($x) => $e,
            Val::Params($x) => $e,
            Val::Contract($x) => $e,
            Val::Fee($x) => $e,
            Val::Error($x) => $e,
        }
    };
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Json,
    Pretty,
    Bincode,
    /// `Transaction::to_json` and `from_json`
    Own,
}
pub const FORMS: [Form; 4] = [Form::Json, Form::Pretty, Form::Bincode, Form::Own];

pub type Report = Vec<(String, String)>;

#[derive(Serialize, Deserialize, Debug)]
pub enum Req {
    Load { slot: usize, kd: Kd, form: Form, bytes: Vec<u8> },
    Store { slot: usize, form: Form },
    Report { slot: usize, height: u64, params: ConsensusParameters },
    Check { slot: usize, height: u64, params: ConsensusParameters },
    /// prepare for predicates
    Prepare { slot: usize },
    /// take the value apart and build it again through the constructors and setters
    Rebuild { slot: usize },
    AddMessage { slot: usize, sender: Address, recipient: Address, nonce: u64, amount: u64, data: Vec<u8> },
    AddCoin { slot: usize, key: Vec<u8>, utxo: UtxoId, amount: u64, asset: AssetId, ptr: TxPointer, maturity: u64 },
    Roots { code: Vec<u8>, salt: Salt, slots: Vec<StorageSlot> },
    Text { s: String },
    Fees { params: ConsensusParameters, bytes: u64, limit: u64, price: u64, gas: u64, balance: u64 },
    Same { a: usize, b: usize },
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub enum Rep {
    Done(bool),
    Bytes(Vec<u8>),
    Report(Report),
    Verdict(Result<(), CheckError>),
}
#[derive(Default)]
pub struct Node {
    pub vals: std::collections::BTreeMap<usize, Val>,
}

pub fn load(kd: Kd, form: Form, b: &[u8]) -> Option<Val> {
    macro_rules! with {
        ($v:ident) => {
            match form {
                Form::Bincode => bincode::deserialize(b).ok().map(Val::$v),
                _ => serde_json::from_slice(b).ok().map(Val::$v),
            }
        };
    }
    match kd {
        Kd::Tx if form == Form::Own => Transaction::from_json(core::str::from_utf8(b).ok()?).map(Val::Tx),
        Kd::Tx => with!(Tx),
        Kd::Script => with!(Script),
        Kd::Create => with!(Create),
        Kd::Mint => with!(Mint),
        Kd::Input => with!(Input),
        Kd::Output => with!(Output),
        Kd::Witness => with!(Witness),
        Kd::Slot => with!(Slot),
        Kd::Utxo => with!(Utxo),
        Kd::Ptr => with!(Ptr),
        Kd::Receipt => with!(Receipt),
        Kd::Params => with!(Params),
        Kd::Contract => with!(Contract),
        Kd::Fee => with!(Fee),
        Kd::Error => with!(Error),
    }
}
pub fn store(v: &Val, form: Form) -> Option<Vec<u8>> {
    if let (Val::Tx(t), Form::Own) = (v, form) {
        return Some(t.to_json().into_bytes());
    }
    each!(v, x => match form {
        Form::Bincode => bincode::serialize(x).ok(),
        Form::Pretty => serde_json::to_vec_pretty(x).ok(),
        _ => serde_json::to_vec(x).ok(),
    })
}
impl Val {
    pub fn kd(&self) -> Kd {
        match self {
            Val::Tx(_) => Kd::Tx,
            Val::Script(_) => Kd::Script,
            Val::Create(_) => Kd::Create,
            Val::Mint(_) => Kd::Mint,
            Val::Input(_) => Kd::Input,
            Val::Output(_) => Kd::Output,
            Val::Witness(_) => Kd::Witness,
            Val::Slot(_) => Kd::Slot,
            Val::Utxo(_) => Kd::Utxo,
            Val::Ptr(_) => Kd::Ptr,
            Val::Receipt(_) => Kd::Receipt,
            Val::Params(_) => Kd::Params,
            Val::Contract(_) => Kd::Contract,
            Val::Fee(_) => Kd::Fee,
            Val::Error(_) => Kd::Error,
        }
    }
}

macro_rules! put {
    ($r:expr, $p:expr, $($n:expr => $e:expr),* $(,)?) => {
        { $( $r.push((format!("{}{}", $p, $n), format!("{:?}", $e))); )* }
    };
}
fn report_input(r: &mut Report, p: &str, x: &Input) {
    let rp = x.repr();
    put!(r, p,
        "size" => x.serialized_size(), "repr" => rp, "repr_word" => x.repr() as u64, "utxo_id" => x.utxo_id(), "input_owner" => x.input_owner(),
        "asset_id" => x.asset_id(), "contract_id" => x.contract_id(), "amount" => x.amount(),
        "witness_index" => x.witness_index(), "maturity" => x.maturity(),
        "predicate_offset" => x.predicate_offset(), "predicate_data_offset" => x.predicate_data_offset(),
        "predicate_len" => x.predicate_len(), "predicate_data_len" => x.predicate_data_len(),
        "message_id" => x.message_id(), "tx_pointer" => x.tx_pointer(), "input_data" => x.input_data(),
        "input_predicate" => x.input_predicate(), "input_predicate_data" => x.input_predicate_data(),
        "predicate" => x.predicate(), "balance_root" => x.balance_root(), "state_root" => x.state_root(),
        "sender" => x.sender(), "recipient" => x.recipient(), "nonce" => x.nonce(),
        "is" => (x.is_coin(), x.is_coin_signed(), x.is_coin_predicate(), x.is_message(), x.is_message_signed(), x.is_message_predicate(), x.is_contract()),
        "statics" => (Input::coin_predicate_offset(), Input::message_data_offset()),
        "repr_offsets" => (rp.utxo_id_offset(), rp.owner_offset(), rp.asset_id_offset(), rp.data_offset(), rp.coin_predicate_offset(), rp.contract_balance_root_offset()),
        "repr_offsets2" => (rp.contract_state_root_offset(), rp.contract_id_offset(), rp.message_id_offset(), rp.message_sender_offset(), rp.message_recipient_offset(), rp.tx_pointer_offset()),
    );
    if let Some(pr) = x.input_predicate() {
        put!(r, p, "predicate_owner" => Input::predicate_owner(pr));
    }
    if let (Some(s), Some(t), Some(n), Some(a), Some(d)) = (x.sender(), x.recipient(), x.nonce(), x.amount(), x.input_data()) {
        put!(r, p, "computed_message_id" => Input::compute_message_id(s, t, n, a, d));
    }
}
fn report_output(r: &mut Report, p: &str, x: &Output) {
    let rp = x.repr();
    put!(r, p,
        "size" => x.serialized_size(), "repr" => rp, "repr_word" => x.repr() as u64, "asset_id" => x.asset_id(), "to" => x.to(), "amount" => x.amount(),
        "input_index" => x.input_index(), "balance_root" => x.balance_root(), "state_root" => x.state_root(),
        "contract_id" => x.contract_id(), "recipient" => x.recipient(),
        "is" => (x.is_coin(), x.is_message(), x.is_variable(), x.is_contract(), x.is_contract_created()),
        "repr_offsets" => (rp.to_offset(), rp.asset_id_offset(), rp.contract_balance_root_offset(), rp.contract_state_root_offset(), rp.contract_created_state_root_offset(), rp.contract_id_offset(), rp.recipient_offset()),
    );
}
fn report_lists<T>(r: &mut Report, t: &T)
where
    T: field::Inputs + field::Outputs + field::Witnesses + Chargeable + fuel_types::bytes::SizedBytes,
{
    put!(r, "",
        "size" => t.serialized_size(), "metered" => t.metered_bytes_size(), "price" => t.price(), "limit" => t.limit(),
        "inputs_offset" => t.inputs_offset(), "outputs_offset" => t.outputs_offset(), "witnesses_offset" => t.witnesses_offset(),
        "assets" => t.input_asset_ids().collect::<Vec<_>>(),
    );
    let mut u: Vec<_> = t.input_asset_ids_unique().copied().collect();
    u.sort();
    put!(r, "", "unique_assets" => u);
    for i in 0..t.inputs().len() + 1 {
        put!(r, "", format!("input {i} at") => (t.inputs_offset_at(i), t.inputs_predicate_offset_at(i)));
    }
    for i in 0..t.outputs().len() + 1 {
        put!(r, "", format!("output {i} at") => t.outputs_offset_at(i));
    }
    for i in 0..t.witnesses().len() + 1 {
        put!(r, "", format!("witness {i} at") => t.witnesses_offset_at(i));
    }
    for (i, x) in t.inputs().iter().enumerate() {
        report_input(r, &format!("input {i} "), x);
    }
    for (i, x) in t.outputs().iter().enumerate() {
        report_output(r, &format!("output {i} "), x);
    }
}
fn report_script(r: &mut Report, t: &Script, p: &ConsensusParameters) {
    report_lists(r, t);
    put!(r, "",
        "gas_price_offset" => t.gas_price_offset(), "gas_limit_offset" => t.gas_limit_offset(), "maturity_offset" => t.maturity_offset(),
        "receipts_root_offset" => t.receipts_root_offset(), "script_offset" => t.script_offset(), "script_data_offset" => t.script_data_offset(),
        "fields" => (t.gas_price(), t.gas_limit(), t.maturity(), t.receipts_root(), t.script(), t.script_data()),
        "fee" => TransactionFee::checked_from_tx(p, t),
    );
}
fn report_create(r: &mut Report, t: &Create, p: &ConsensusParameters) {
    report_lists(r, t);
    put!(r, "",
        "gas_price_offset" => t.gas_price_offset(), "gas_limit_offset" => t.gas_limit_offset(), "maturity_offset" => t.maturity_offset(),
        "bytecode_length_offset" => t.bytecode_length_offset(), "bytecode_witness_index_offset" => t.bytecode_witness_index_offset(),
        "salt_offset" => t.salt_offset(), "storage_slots_offset" => t.storage_slots_offset(),
        "fields" => (t.gas_price(), t.gas_limit(), t.maturity(), t.bytecode_length(), t.bytecode_witness_index(), t.salt(), t.storage_slots()),
        "fee" => TransactionFee::checked_from_tx(p, t),
        "contract" => Contract::try_from(t),
    );
    for i in 0..t.storage_slots().len() + 1 {
        put!(r, "", format!("slot {i} at") => t.storage_slots_offset_at(i));
    }
}
fn report_mint(r: &mut Report, t: &Mint) {
    put!(r, "",
        "size" => t.serialized_size(), "tx_pointer_offset" => t.tx_pointer_offset(), "tx_pointer" => t.tx_pointer(),
        "outputs_offset" => t.outputs_offset(),
    );
    for i in 0..t.outputs().len() + 1 {
        put!(r, "", format!("output {i} at") => t.outputs_offset_at(i));
    }
    for (i, x) in t.outputs().iter().enumerate() {
        report_output(r, &format!("output {i} "), x);
    }
}
fn report(v: &Val, p: &ConsensusParameters) -> Report {
    let mut r = vec![];
    let r = &mut r;
    match v {
        Val::Tx(t) => {
            put!(r, "", "size" => t.serialized_size(), "is" => (t.is_script(), t.is_create(), t.is_mint()), "repr" => TransactionRepr::from(t),
                "contract" => Contract::try_from(t),
                "as" => (t.as_script().is_some(), t.as_create().is_some(), t.as_mint().is_some()));
            match t {
                Transaction::Script(t) => report_script(r, t, p),
                Transaction::Create(t) => report_create(r, t, p),
                Transaction::Mint(t) => report_mint(r, t),
            }
        }
        Val::Script(t) => report_script(r, t, p),
        Val::Create(t) => report_create(r, t, p),
        Val::Mint(t) => report_mint(r, t),
        Val::Input(x) => report_input(r, "", x),
        Val::Output(x) => report_output(r, "", x),
        Val::Witness(x) => put!(r, "", "size" => x.serialized_size(), "data" => x.as_ref()),
        Val::Slot(x) => {
            let b: Bytes64 = x.into();
            put!(r, "", "size" => x.serialized_size(), "key" => x.key(), "value" => x.value(), "bytes" => b, "back" => StorageSlot::from(&b))
        }
        Val::Utxo(x) => {
            put!(r, "", "size" => x.serialized_size(), "tx_id" => x.tx_id(), "output_index" => x.output_index(), "lower" => format!("{x:x}"), "upper" => format!("{x:X}"), "display" => format!("{x:#x}"));
            put!(r, "", "parsed" => UtxoId::from_str(&format!("{x:x}")));
        }
        Val::Ptr(x) => {
            put!(r, "", "size" => x.serialized_size(), "height" => x.block_height(), "index" => x.tx_index(), "lower" => format!("{x:x}"), "upper" => format!("{x:X}"));
            put!(r, "", "parsed" => TxPointer::from_str(&format!("{x:x}")));
        }
        Val::Receipt(x) => put!(r, "",
            "size" => x.serialized_size(), "id" => x.id(), "pc" => x.pc(), "is" => x.is(), "to" => x.to(), "to_address" => x.to_address(),
            "amount" => x.amount(), "asset_id" => x.asset_id(), "gas" => x.gas(), "params" => (x.param1(), x.param2()), "val" => x.val(),
            "ptr" => x.ptr(), "len" => x.len(), "is_empty" => x.is_empty(), "digest" => x.digest(), "data" => x.data(), "reason" => x.reason(),
            "r" => (x.ra(), x.rb(), x.rc(), x.rd()), "result" => x.result(), "gas_used" => x.gas_used(), "message_id" => x.message_id(),
            "sender" => x.sender(), "recipient" => x.recipient(), "nonce" => x.nonce(), "contract_id" => x.contract_id()
        ),
        Val::Params(x) => put!(r, "", "params" => x, "tx_offset" => (x.max_inputs < 1 << 32).then(|| x.tx_offset())),
        Val::Contract(x) => put!(r, "", "root" => x.root(), "code" => x.as_ref()),
        Val::Fee(x) => put!(r, "", "min" => TransactionFee::min(x), "total" => x.total(), "gas" => (x.min_gas(), x.max_gas()), "inner" => x.into_inner(), "word" => Word::from(*x)),
        Val::Error(x) => put!(r, "", "error" => x),
    }
    core::mem::take(r)
}

fn rebuild_input(x: &Input) -> Input {
    match x.clone() {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
            Input::coin_signed(utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity)
        }
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => {
            Input::coin_predicate(utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data)
        }
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
            Input::contract(utxo_id, balance_root, state_root, tx_pointer, contract_id)
        }
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
            Input::message_signed(message_id, sender, recipient, amount, nonce, witness_index, data)
        }
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
            Input::message_predicate(message_id, sender, recipient, amount, nonce, data, predicate, predicate_data)
        }
    }
}
fn rebuild_output(x: &Output) -> Output {
    match *x {
        Output::Coin { to, amount, asset_id } => Output::coin(to, amount, asset_id),
        Output::Contract { input_index, balance_root, state_root } => Output::contract(input_index, balance_root, state_root),
        Output::Message { recipient, amount } => Output::message(recipient, amount),
        Output::Change { to, amount, asset_id } => Output::change(to, amount, asset_id),
        Output::Variable { to, amount, asset_id } => Output::variable(to, amount, asset_id),
        Output::ContractCreated { contract_id, state_root } => Output::contract_created(contract_id, state_root),
    }
}
fn ins<T: field::Inputs>(t: &T) -> Vec<Input> {
    t.inputs().iter().map(rebuild_input).collect()
}
fn outs<T: field::Outputs>(t: &T) -> Vec<Output> {
    t.outputs().iter().map(rebuild_output).collect()
}
fn wits<T: field::Witnesses>(t: &T) -> Vec<Witness> {
    t.witnesses().iter().map(|w| Witness::from(w.as_ref().to_vec())).collect()
}
fn rebuild_script(t: &Script) -> Script {
    let mut n = Transaction::script(*t.gas_price(), *t.gas_limit(), *t.maturity(), t.script().clone(), t.script_data().clone(), ins(t), outs(t), wits(t));
    *n.receipts_root_mut() = *t.receipts_root();
    n
}
fn rebuild_create(t: &Create) -> Create {
    let slots = t.storage_slots().iter().map(|s| StorageSlot::new(*s.key(), *s.value())).collect();
    let mut n = Transaction::create(
        *t.gas_price(),
        *t.gas_limit(),
        *t.maturity(),
        *t.bytecode_witness_index(),
        *t.salt(),
        slots,
        ins(t),
        outs(t),
        wits(t),
    );
    *n.bytecode_length_mut() = *t.bytecode_length();
    n
}
fn rebuild_mint(t: &Mint) -> Mint {
    Transaction::mint(TxPointer::new(t.tx_pointer().block_height(), t.tx_pointer().tx_index()), outs(t))
}
fn rebuild(v: &Val) -> Val {
    match v {
        Val::Tx(Transaction::Script(t)) => Val::Tx(rebuild_script(t).into()),
        Val::Tx(Transaction::Create(t)) => Val::Tx(rebuild_create(t).into()),
        Val::Tx(Transaction::Mint(t)) => Val::Tx(rebuild_mint(t).into()),
        Val::Script(t) => Val::Script(rebuild_script(t)),
        Val::Create(t) => Val::Create(rebuild_create(t)),
        Val::Mint(t) => Val::Mint(rebuild_mint(t)),
        Val::Input(x) => Val::Input(rebuild_input(x)),
        Val::Output(x) => Val::Output(rebuild_output(x)),
        Val::Witness(x) => Val::Witness(x.as_ref().into()),
        Val::Slot(x) => Val::Slot(StorageSlot::new(*x.key(), *x.value())),
        Val::Utxo(x) => Val::Utxo(UtxoId::new(*x.tx_id(), x.output_index())),
        Val::Ptr(x) => Val::Ptr(TxPointer::new(x.block_height(), x.tx_index())),
        Val::Params(x) => Val::Params(
            ConsensusParameters::DEFAULT
                .with_contract_max_size(x.contract_max_size)
                .with_max_inputs(x.max_inputs)
                .with_max_outputs(x.max_outputs)
                .with_max_witnesses(x.max_witnesses)
                .with_max_gas_per_tx(x.max_gas_per_tx)
                .with_max_script_length(x.max_script_length)
                .with_max_script_data_length(x.max_script_data_length)
                .with_max_storage_slots(x.max_storage_slots)
                .with_max_predicate_length(x.max_predicate_length)
                .with_max_predicate_data_length(x.max_predicate_data_length)
                .with_gas_price_factor(x.gas_price_factor)
                .with_gas_per_byte(x.gas_per_byte)
                .with_max_message_data_length(x.max_message_data_length),
        ),
        Val::Contract(x) => Val::Contract(Contract::from(x.as_ref())),
        Val::Fee(x) => Val::Fee(TransactionFee::new(TransactionFee::min(x), x.total(), x.min_gas(), x.max_gas())),
        x => x.clone(),
    }
}

impl Node {
    pub fn call(&mut self, req: &[u8]) -> Vec<u8> {
        let req: Req = bincode::deserialize(req).expect("request");
        bincode::serialize(&self.serve(req)).expect("reply")
    }
    pub fn serve(&mut self, req: Req) -> Rep {
        match req {
            Req::Load { slot, kd, form, bytes } => match load(kd, form, &bytes) {
                Some(v) => {
                    self.vals.insert(slot, v);
                    Rep::Done(true)
                }
                None => Rep::Done(false),
            },
            Req::Store { slot, form } => match self.vals.get(&slot).and_then(|v| store(v, form)) {
                Some(b) => Rep::Bytes(b),
                None => Rep::Done(false),
            },
            Req::Report { slot, params, .. } => match self.vals.get(&slot) {
                Some(v) => Rep::Report(report(v, &params)),
                None => Rep::Done(false),
            },
            Req::Check { slot, height, params } => match self.vals.get(&slot) {
                Some(Val::Tx(t)) => Rep::Verdict(t.check_without_signatures(height, &params)),
                Some(Val::Script(t)) => Rep::Verdict(t.check_without_signatures(height, &params)),
                Some(Val::Create(t)) => Rep::Verdict(t.check_without_signatures(height, &params)),
                Some(Val::Mint(t)) => Rep::Verdict(t.check_without_signatures(height, &params)),
                _ => Rep::Done(false),
            },
            Req::Prepare { slot } => match self.vals.get_mut(&slot) {
                Some(Val::Tx(Transaction::Script(t)) | Val::Script(t)) => {
                    t.prepare_init_predicate();
                    Rep::Done(true)
                }
                Some(Val::Tx(Transaction::Create(t)) | Val::Create(t)) => {
                    t.prepare_init_predicate();
                    Rep::Done(true)
                }
                Some(Val::Input(x)) => {
                    x.prepare_init_predicate();
                    Rep::Done(true)
                }
                Some(Val::Output(x)) => {
                    x.prepare_init_predicate();
                    Rep::Done(true)
                }
                _ => Rep::Done(false),
            },
            Req::Rebuild { slot } => match self.vals.get_mut(&slot) {
                Some(v) => {
                    *v = rebuild(v);
                    Rep::Done(true)
                }
                None => Rep::Done(false),
            },
            Req::AddMessage { slot, sender, recipient, nonce, amount, data } => match self.vals.get_mut(&slot) {
                Some(Val::Tx(Transaction::Script(t)) | Val::Script(t)) => {
                    t.add_unsigned_message_input(sender, recipient, nonce, amount, data);
                    Rep::Done(true)
                }
                Some(Val::Tx(Transaction::Create(t)) | Val::Create(t)) => {
                    t.add_unsigned_message_input(sender, recipient, nonce, amount, data);
                    Rep::Done(true)
                }
                _ => Rep::Done(false),
            },
            Req::AddCoin { slot, key, utxo, amount, asset, ptr, maturity } => {
                // Safety: the caller sends a point it got from a real key
                let key = unsafe { fuel_crypto::PublicKey::from_slice_unchecked(&key) };
                match self.vals.get_mut(&slot) {
                    Some(Val::Tx(Transaction::Script(t)) | Val::Script(t)) => {
                        t.add_unsigned_coin_input(utxo, &key, amount, asset, ptr, maturity);
                        Rep::Done(true)
                    }
                    Some(Val::Tx(Transaction::Create(t)) | Val::Create(t)) => {
                        t.add_unsigned_coin_input(utxo, &key, amount, asset, ptr, maturity);
                        Rep::Done(true)
                    }
                    _ => Rep::Done(false),
                }
            }
            Req::Roots { code, salt, slots } => {
                let mut r = vec![];
                let k = Contract::from(code.clone());
                let root = k.root();
                let state = Contract::initial_state_root(slots.iter());
                put!(r, "", "root" => root, "root_from_code" => Contract::root_from_code(&code), "state" => state,
                    "default_state" => Contract::default_state_root(), "id" => k.id(&salt, &root, &state), "owner" => Input::predicate_owner(&code));
                Rep::Report(r)
            }
            Req::Text { s } => {
                let mut r = vec![];
                put!(r, "", "utxo" => UtxoId::from_str(&s), "ptr" => TxPointer::from_str(&s), "json" => Transaction::from_json(&s));
                Rep::Report(r)
            }
            Req::Fees { params, bytes, limit, price, gas, balance } => {
                let mut r = vec![];
                let f = TransactionFee::checked_from_values(&params, bytes, limit, price);
                put!(r, "", "fee" => f, "refund" => TransactionFee::gas_refund_value(&params, gas, price),
                    "deduct" => f.map(|f| f.checked_deduct_total(balance)));
                Rep::Report(r)
            }
            Req::Same { a, b } => Rep::Done(self.vals.get(&a) == self.vals.get(&b)),
        }
    }
}
