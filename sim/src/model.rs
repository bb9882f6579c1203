//! Independent statement of the format, id, rules, fees and Merkle definitions.
//! Uses the crate's Input/Output enums as plain data only.
use fuel_tx::field::{BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::*;
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};

pub type B32 = [u8; 32];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Script,
    Create,
    Mint,
}

#[derive(Clone, Debug)]
pub struct M {
    pub kind: Kind,
    pub gas_price: u64,
    pub gas_limit: u64,
    pub maturity: u64,
    pub receipts_root: B32,
    pub script: Vec<u8>,
    pub data: Vec<u8>,
    pub bytecode_length: u64,
    pub bytecode_witness_index: u8,
    pub salt: B32,
    pub slots: Vec<(B32, B32)>,
    pub tx_pointer: (u32, u16),
    pub inputs: Vec<Input>,
    pub outputs: Vec<Output>,
    pub witnesses: Vec<Vec<u8>>,
}

impl M {
    pub fn empty(kind: Kind) -> M {
        M {
            kind,
            gas_price: 0,
            gas_limit: 0,
            maturity: 0,
            receipts_root: [0; 32],
            script: vec![],
            data: vec![],
            bytecode_length: 0,
            bytecode_witness_index: 0,
            salt: [0; 32],
            slots: vec![],
            tx_pointer: (0, 0),
            inputs: vec![],
            outputs: vec![],
            witnesses: vec![],
        }
    }
}

pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

// ------------------------------------------------------------ real <-> model
pub fn slot(s: &(B32, B32)) -> StorageSlot {
    StorageSlot::new(s.0.into(), s.1.into())
}
pub fn build_script(m: &M) -> Script {
    let mut s = Transaction::script(
        m.gas_price,
        m.gas_limit,
        m.maturity,
        m.script.clone(),
        m.data.clone(),
        m.inputs.clone(),
        m.outputs.clone(),
        m.witnesses.iter().map(|w| Witness::from(w.clone())).collect(),
    );
    *s.receipts_root_mut() = m.receipts_root.into();
    s
}
pub fn build_create(m: &M) -> Create {
    let mut t = Transaction::create(
        m.gas_price,
        m.gas_limit,
        m.maturity,
        m.bytecode_witness_index,
        m.salt.into(),
        m.slots.iter().map(slot).collect(),
        m.inputs.clone(),
        m.outputs.clone(),
        m.witnesses.iter().map(|w| Witness::from(w.clone())).collect(),
    );
    *t.bytecode_length_mut() = m.bytecode_length;
    t
}
pub fn build_mint(m: &M) -> Mint {
    Transaction::mint(TxPointer::new(m.tx_pointer.0, m.tx_pointer.1), m.outputs.clone())
}
pub fn build(m: &M) -> Transaction {
    match m.kind {
        Kind::Script => build_script(m).into(),
        Kind::Create => build_create(m).into(),
        Kind::Mint => build_mint(m).into(),
    }
}
fn wits(w: &[Witness]) -> Vec<Vec<u8>> {
    w.iter().map(|w| w.as_ref().to_vec()).collect()
}
pub fn snap_script(t: &Script) -> M {
    M {
        gas_price: *t.gas_price(),
        gas_limit: *t.gas_limit(),
        maturity: *t.maturity(),
        receipts_root: **t.receipts_root(),
        script: t.script().clone(),
        data: t.script_data().clone(),
        inputs: t.inputs().clone(),
        outputs: t.outputs().clone(),
        witnesses: wits(t.witnesses()),
        ..M::empty(Kind::Script)
    }
}
pub fn snap_create(t: &Create) -> M {
    M {
        gas_price: *t.gas_price(),
        gas_limit: *t.gas_limit(),
        maturity: *t.maturity(),
        bytecode_length: *t.bytecode_length(),
        bytecode_witness_index: *t.bytecode_witness_index(),
        salt: **t.salt(),
        slots: t.storage_slots().iter().map(|s| (**s.key(), **s.value())).collect(),
        inputs: t.inputs().clone(),
        outputs: t.outputs().clone(),
        witnesses: wits(t.witnesses()),
        ..M::empty(Kind::Create)
    }
}
pub fn snap_mint(t: &Mint) -> M {
    M {
        tx_pointer: (t.tx_pointer().block_height(), t.tx_pointer().tx_index()),
        outputs: t.outputs().clone(),
        ..M::empty(Kind::Mint)
    }
}
pub fn snap(t: &Transaction) -> M {
    match t {
        Transaction::Script(t) => snap_script(t),
        Transaction::Create(t) => snap_create(t),
        Transaction::Mint(t) => snap_mint(t),
    }
}

// ------------------------------------------------------------ encoder
#[derive(Clone, Copy, Debug)]
pub struct F {
    pub k: &'static str,
    pub i: usize,
    pub off: usize,
    pub len: usize,
}
#[derive(Default, Clone)]
pub struct Enc {
    pub b: Vec<u8>,
    pub f: Vec<F>,
    idx: usize,
}
impl Enc {
    fn mark(&mut self, k: &'static str, off: usize) {
        let len = self.b.len() - off;
        let i = self.idx;
        self.f.push(F { k, i, off, len });
    }
    pub fn w(&mut self, k: &'static str, v: u64) {
        let o = self.b.len();
        self.b.extend_from_slice(&v.to_be_bytes());
        self.mark(k, o);
    }
    pub fn a(&mut self, k: &'static str, v: &[u8]) {
        let o = self.b.len();
        self.b.extend_from_slice(v);
        self.mark(k, o);
    }
    /// zero padded bytes; the mark covers the padded extent
    pub fn p(&mut self, k: &'static str, v: &[u8]) {
        let o = self.b.len();
        self.b.extend_from_slice(v);
        while self.b.len() % 8 != 0 {
            self.b.push(0);
        }
        self.mark(k, o);
    }
    pub fn ptr(&mut self, k: &'static str, h: u32, i: u16) {
        let o = self.b.len();
        self.w("ptr.block", h as u64);
        self.w("ptr.index", i as u64);
        self.mark(k, o);
    }
    pub fn utxo(&mut self, u: &UtxoId) {
        let o = self.b.len();
        self.a("utxo.tx", u.tx_id().as_ref());
        self.w("utxo.out", u.output_index() as u64);
        self.mark("in.utxo", o);
    }
}

pub fn enc_input(e: &mut Enc, i: usize, x: &Input) {
    e.idx = i;
    let o = e.b.len();
    let ptr = |e: &mut Enc, p: &TxPointer| e.ptr("in.ptr", p.block_height(), p.tx_index());
    match x {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
            e.w("in.tag", 0);
            e.utxo(utxo_id);
            e.a("in.owner", owner.as_ref());
            e.w("in.amount", *amount);
            e.a("in.asset", asset_id.as_ref());
            ptr(e, tx_pointer);
            e.w("in.witness", *witness_index as u64);
            e.w("in.maturity", *maturity);
            e.w("len.predicate", 0);
            e.w("len.predicate_data", 0);
        }
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => {
            e.w("in.tag", 0);
            e.utxo(utxo_id);
            e.a("in.owner", owner.as_ref());
            e.w("in.amount", *amount);
            e.a("in.asset", asset_id.as_ref());
            ptr(e, tx_pointer);
            e.w("in.witness", 0);
            e.w("in.maturity", *maturity);
            e.w("len.predicate", predicate.len() as u64);
            e.w("len.predicate_data", predicate_data.len() as u64);
            e.p("in.predicate", predicate);
            e.p("in.predicate_data", predicate_data);
        }
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
            e.w("in.tag", 1);
            e.utxo(utxo_id);
            e.a("in.balance_root", balance_root.as_ref());
            e.a("in.state_root", state_root.as_ref());
            ptr(e, tx_pointer);
            e.a("in.contract", contract_id.as_ref());
        }
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
            e.w("in.tag", 2);
            e.a("in.message_id", message_id.as_ref());
            e.a("in.sender", sender.as_ref());
            e.a("in.recipient", recipient.as_ref());
            e.w("in.amount", *amount);
            e.w("in.nonce", *nonce);
            e.w("in.witness", *witness_index as u64);
            e.w("len.data", data.len() as u64);
            e.w("len.predicate", 0);
            e.w("len.predicate_data", 0);
            e.p("in.data", data);
        }
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
            e.w("in.tag", 2);
            e.a("in.message_id", message_id.as_ref());
            e.a("in.sender", sender.as_ref());
            e.a("in.recipient", recipient.as_ref());
            e.w("in.amount", *amount);
            e.w("in.nonce", *nonce);
            e.w("in.witness", 0);
            e.w("len.data", data.len() as u64);
            e.w("len.predicate", predicate.len() as u64);
            e.w("len.predicate_data", predicate_data.len() as u64);
            e.p("in.data", data);
            e.p("in.predicate", predicate);
            e.p("in.predicate_data", predicate_data);
        }
    }
    e.mark("input", o);
}
pub fn enc_output(e: &mut Enc, i: usize, x: &Output) {
    e.idx = i;
    let o = e.b.len();
    match x {
        Output::Coin { to, amount, asset_id } => {
            e.w("out.tag", 0);
            e.a("out.to", to.as_ref());
            e.w("out.amount", *amount);
            e.a("out.asset", asset_id.as_ref());
        }
        Output::Contract { input_index, balance_root, state_root } => {
            e.w("out.tag", 1);
            e.w("out.input_index", *input_index as u64);
            e.a("out.balance_root", balance_root.as_ref());
            e.a("out.state_root", state_root.as_ref());
        }
        Output::Message { recipient, amount } => {
            e.w("out.tag", 2);
            e.a("out.recipient", recipient.as_ref());
            e.w("out.amount", *amount);
        }
        Output::Change { to, amount, asset_id } => {
            e.w("out.tag", 3);
            e.a("out.to", to.as_ref());
            e.w("out.amount", *amount);
            e.a("out.asset", asset_id.as_ref());
        }
        Output::Variable { to, amount, asset_id } => {
            e.w("out.tag", 4);
            e.a("out.to", to.as_ref());
            e.w("out.amount", *amount);
            e.a("out.asset", asset_id.as_ref());
        }
        Output::ContractCreated { contract_id, state_root } => {
            e.w("out.tag", 5);
            e.a("out.contract", contract_id.as_ref());
            e.a("out.created_state_root", state_root.as_ref());
        }
    }
    e.mark("output", o);
}
pub fn enc_witness(e: &mut Enc, i: usize, x: &[u8]) {
    e.idx = i;
    let o = e.b.len();
    e.w("len.witness", x.len() as u64);
    e.p("wit.data", x);
    e.mark("witness", o);
}
pub fn enc(m: &M) -> Enc {
    let mut e = Enc::default();
    match m.kind {
        Kind::Script | Kind::Create => {
            e.w("tag", if m.kind == Kind::Script { 0 } else { 1 });
            e.w("gas_price", m.gas_price);
            e.w("gas_limit", m.gas_limit);
            e.w("maturity", m.maturity);
            if m.kind == Kind::Script {
                e.w("len.script", m.script.len() as u64);
                e.w("len.script_data", m.data.len() as u64);
            } else {
                e.w("bytecode_length", m.bytecode_length);
                e.w("bytecode_witness_index", m.bytecode_witness_index as u64);
                e.w("len.slots", m.slots.len() as u64);
            }
            e.w("len.inputs", m.inputs.len() as u64);
            e.w("len.outputs", m.outputs.len() as u64);
            e.w("len.witnesses", m.witnesses.len() as u64);
            if m.kind == Kind::Script {
                e.a("receipts_root", &m.receipts_root);
                e.p("script", &m.script);
                e.p("script_data", &m.data);
            } else {
                e.a("salt", &m.salt);
                let o = e.b.len();
                for (i, s) in m.slots.iter().enumerate() {
                    e.idx = i;
                    let o = e.b.len();
                    e.a("slot.key", &s.0);
                    e.a("slot.value", &s.1);
                    e.mark("slot", o);
                }
                e.idx = 0;
                e.mark("slots", o);
            }
            let o = e.b.len();
            for (i, x) in m.inputs.iter().enumerate() {
                enc_input(&mut e, i, x);
            }
            e.idx = 0;
            e.mark("inputs", o);
            let o = e.b.len();
            for (i, x) in m.outputs.iter().enumerate() {
                enc_output(&mut e, i, x);
            }
            e.idx = 0;
            e.mark("outputs", o);
            let o = e.b.len();
            for (i, x) in m.witnesses.iter().enumerate() {
                enc_witness(&mut e, i, x);
            }
            e.idx = 0;
            e.mark("witnesses", o);
        }
        Kind::Mint => {
            e.w("tag", 2);
            e.ptr("tx_pointer", m.tx_pointer.0, m.tx_pointer.1);
            e.w("len.outputs", m.outputs.len() as u64);
            let o = e.b.len();
            for (i, x) in m.outputs.iter().enumerate() {
                enc_output(&mut e, i, x);
            }
            e.idx = 0;
            e.mark("outputs", o);
        }
    }
    e
}
pub fn enc_bytes(m: &M) -> Vec<u8> {
    enc(m).b
}
/// Identity of content, stricter than the wire: also tells the variants of inputs apart.
pub fn strict(m: &M) -> Vec<u8> {
    let mut b = enc_bytes(m);
    for i in &m.inputs {
        b.push(match i {
            Input::CoinSigned { .. } => 1,
            Input::CoinPredicate { .. } => 2,
            Input::Contract { .. } => 3,
            Input::MessageSigned { .. } => 4,
            Input::MessagePredicate { .. } => 5,
        });
    }
    b
}
pub fn strict_input(i: &Input) -> Vec<u8> {
    let mut m = M::empty(Kind::Script);
    m.inputs.push(i.clone());
    strict(&m)
}

// ------------------------------------------------------------ decoder
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DecErr {
    Eof,
    Tag,
    Range,
}
pub struct Dec<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, p: 0 }
    }
    pub fn raw(&mut self, n: u64) -> Result<&'a [u8], DecErr> {
        let left = (self.b.len() - self.p) as u64;
        let pad = (8 - n % 8) % 8;
        if n > left || n + pad > left {
            return Err(DecErr::Eof);
        }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += (n + pad) as usize;
        Ok(r)
    }
    pub fn word(&mut self) -> Result<u64, DecErr> {
        Ok(u64::from_be_bytes(self.raw(8)?.try_into().unwrap()))
    }
    pub fn b32(&mut self) -> Result<B32, DecErr> {
        Ok(self.raw(32)?.try_into().unwrap())
    }
    pub fn ptr(&mut self) -> Result<TxPointer, DecErr> {
        let h = self.word()?;
        let i = self.word()?;
        if h > u32::MAX as u64 || i > u16::MAX as u64 {
            return Err(DecErr::Range);
        }
        Ok(TxPointer::new(h as u32, i as u16))
    }
    pub fn utxo(&mut self) -> Result<UtxoId, DecErr> {
        let t = self.b32()?;
        let o = self.word()?;
        Ok(UtxoId::new(t.into(), o as u8))
    }
    pub fn input(&mut self) -> Result<Input, DecErr> {
        match self.word()? {
            0 => {
                let utxo_id = self.utxo()?;
                let owner = self.b32()?.into();
                let amount = self.word()?;
                let asset_id = self.b32()?.into();
                let p = self.ptr();
                if p == Err(DecErr::Eof) {
                    return Err(DecErr::Eof);
                }
                let witness_index = self.word()? as u8;
                let maturity = self.word()?;
                let pl = self.word()?;
                let dl = self.word()?;
                let tx_pointer = p?;
                let predicate = self.raw(pl)?.to_vec();
                let predicate_data = self.raw(dl)?.to_vec();
                Ok(if predicate.is_empty() {
                    Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity }
                } else {
                    Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data }
                })
            }
            1 => {
                let utxo_id = self.utxo()?;
                let balance_root = self.b32()?.into();
                let state_root = self.b32()?.into();
                let p = self.ptr();
                if p == Err(DecErr::Eof) {
                    return Err(DecErr::Eof);
                }
                let contract_id = self.b32()?.into();
                Ok(Input::Contract { utxo_id, balance_root, state_root, tx_pointer: p?, contract_id })
            }
            2 => {
                let message_id = self.b32()?.into();
                let sender = self.b32()?.into();
                let recipient = self.b32()?.into();
                let amount = self.word()?;
                let nonce = self.word()?;
                let witness_index = self.word()? as u8;
                let n = self.word()?;
                let pl = self.word()?;
                let dl = self.word()?;
                let data = self.raw(n)?.to_vec();
                let predicate = self.raw(pl)?.to_vec();
                let predicate_data = self.raw(dl)?.to_vec();
                Ok(if predicate.is_empty() {
                    Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data }
                } else {
                    Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data }
                })
            }
            _ => Err(DecErr::Tag),
        }
    }
    pub fn output(&mut self) -> Result<Output, DecErr> {
        let t = self.word()?;
        Ok(match t {
            0 | 3 | 4 => {
                let to = self.b32()?.into();
                let amount = self.word()?;
                let asset_id = self.b32()?.into();
                match t {
                    0 => Output::Coin { to, amount, asset_id },
                    3 => Output::Change { to, amount, asset_id },
                    _ => Output::Variable { to, amount, asset_id },
                }
            }
            1 => Output::Contract {
                input_index: self.word()? as u8,
                balance_root: self.b32()?.into(),
                state_root: self.b32()?.into(),
            },
            2 => Output::Message { recipient: self.b32()?.into(), amount: self.word()? },
            5 => Output::ContractCreated { contract_id: self.b32()?.into(), state_root: self.b32()?.into() },
            _ => return Err(DecErr::Tag),
        })
    }
    pub fn witness(&mut self) -> Result<Vec<u8>, DecErr> {
        let n = self.word()?;
        Ok(self.raw(n)?.to_vec())
    }
    fn many<T>(&mut self, n: u64, f: impl Fn(&mut Self) -> Result<T, DecErr>) -> Result<Vec<T>, DecErr> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    pub fn tx(&mut self) -> Result<M, DecErr> {
        match self.word()? {
            0 => {
                let mut m = M::empty(Kind::Script);
                m.gas_price = self.word()?;
                m.gas_limit = self.word()?;
                m.maturity = self.word()?;
                let sl = self.word()?;
                let dl = self.word()?;
                let (i, o, w) = (self.word()?, self.word()?, self.word()?);
                m.receipts_root = self.b32()?;
                m.script = self.raw(sl)?.to_vec();
                m.data = self.raw(dl)?.to_vec();
                m.inputs = self.many(i, |d| d.input())?;
                m.outputs = self.many(o, |d| d.output())?;
                m.witnesses = self.many(w, |d| d.witness())?;
                Ok(m)
            }
            1 => {
                let mut m = M::empty(Kind::Create);
                m.gas_price = self.word()?;
                m.gas_limit = self.word()?;
                m.maturity = self.word()?;
                m.bytecode_length = self.word()?;
                m.bytecode_witness_index = self.word()? as u8;
                let s = self.word()? as u16;
                let (i, o, w) = (self.word()?, self.word()?, self.word()?);
                m.salt = self.b32()?;
                m.slots = self.many(s as u64, |d| Ok((d.b32()?, d.b32()?)))?;
                m.inputs = self.many(i, |d| d.input())?;
                m.outputs = self.many(o, |d| d.output())?;
                m.witnesses = self.many(w, |d| d.witness())?;
                Ok(m)
            }
            2 => {
                let mut m = M::empty(Kind::Mint);
                let p = self.ptr();
                if p == Err(DecErr::Eof) {
                    return Err(DecErr::Eof);
                }
                let o = self.word()?;
                let p = p?;
                m.tx_pointer = (p.block_height(), p.tx_index());
                m.outputs = self.many(o, |d| d.output())?;
                Ok(m)
            }
            _ => Err(DecErr::Tag),
        }
    }
}
pub fn dec_tx(b: &[u8]) -> Result<(M, usize), DecErr> {
    let mut d = Dec::new(b);
    let m = d.tx()?;
    Ok((m, d.p))
}

// ------------------------------------------------------------ id
pub fn clear_input_malleable(i: &mut Input) {
    match i {
        Input::CoinSigned { tx_pointer, .. } | Input::CoinPredicate { tx_pointer, .. } => {
            *tx_pointer = TxPointer::new(0, 0)
        }
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, .. } => {
            *utxo_id = UtxoId::new([0; 32].into(), 0);
            *balance_root = [0; 32].into();
            *state_root = [0; 32].into();
            *tx_pointer = TxPointer::new(0, 0);
        }
        _ => {}
    }
}
pub fn clear_output_malleable(o: &mut Output) {
    match o {
        Output::Contract { balance_root, state_root, .. } => {
            *balance_root = [0; 32].into();
            *state_root = [0; 32].into();
        }
        Output::Message { recipient, amount } => {
            *recipient = [0; 32].into();
            *amount = 0;
        }
        Output::Change { amount, .. } => *amount = 0,
        Output::Variable { to, amount, asset_id } => {
            *to = [0; 32].into();
            *amount = 0;
            *asset_id = [0; 32].into();
        }
        _ => {}
    }
}
/// content that the id covers
pub fn id_preimage(m: &M) -> Vec<u8> {
    if m.kind == Kind::Mint {
        return enc_bytes(m);
    }
    let mut m = m.clone();
    m.receipts_root = [0; 32];
    m.inputs.iter_mut().for_each(clear_input_malleable);
    m.outputs.iter_mut().for_each(clear_output_malleable);
    m.witnesses.clear();
    enc_bytes(&m)
}
pub fn id(m: &M) -> B32 {
    sha(&[&id_preimage(m)])
}
/// Preparation for script execution
pub fn prep_script_output(o: &mut Output) {
    match o {
        Output::Message { recipient, amount } => {
            *recipient = [0; 32].into();
            *amount = 0;
        }
        Output::Change { amount, .. } => *amount = 0,
        Output::Variable { to, amount, asset_id } => {
            *to = [0; 32].into();
            *amount = 0;
            *asset_id = [0; 32].into();
        }
        _ => {}
    }
}

// ------------------------------------------------------------ Merkle
pub fn code_root(code: &[u8]) -> B32 {
    let leaves: Vec<B32> = code
        .chunks(8)
        .map(|c| {
            let mut l = [0u8; 8];
            l[..c.len()].copy_from_slice(c);
            sha(&[&[0], &l])
        })
        .collect();
    mth(&leaves)
}
fn mth(l: &[B32]) -> B32 {
    match l.len() {
        0 => sha(&[]),
        1 => l[0],
        n => {
            let k = n.next_power_of_two() / 2;
            sha(&[&[1], &mth(&l[..k]), &mth(&l[k..])])
        }
    }
}
/// Sparse Merkle root over key -> value (compact single-leaf subtrees, MSB first).
pub fn state_root(slots: &[(B32, B32)]) -> B32 {
    let map: BTreeMap<B32, B32> = slots.iter().cloned().collect();
    let leaves: Vec<(B32, B32)> = map.iter().map(|(k, v)| (*k, sha(&[&[0], k, &sha(&[v])]))).collect();
    smt(&leaves, 0)
}
fn smt(l: &[(B32, B32)], depth: usize) -> B32 {
    match l.len() {
        0 => [0; 32],
        1 => l[0].1,
        _ => {
            let bit = |k: &B32| (k[depth / 8] >> (7 - depth % 8)) & 1;
            let s = l.iter().position(|(k, _)| bit(k) == 1).unwrap_or(l.len());
            sha(&[&[1], &smt(&l[..s], depth + 1), &smt(&l[s..], depth + 1)])
        }
    }
}
pub fn contract_id(salt: &B32, root: &B32, state: &B32) -> B32 {
    sha(&[&0x4655454Cu32.to_be_bytes(), salt, root, state])
}
pub fn predicate_owner(p: &[u8]) -> B32 {
    code_root(p)
}
pub fn owner_of(pk: &[u8]) -> B32 {
    sha(&[pk])
}

// ------------------------------------------------------------ fees
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fee {
    pub bytes: u64,
    pub total: u64,
    pub min_gas: u64,
    pub max_gas: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FeeV {
    Exact(Fee),
    /// cannot be represented: must be refused
    Overflow,
    /// the fee fits but an intermediate product does not fit a word: may be refused
    Either(Fee),
}
pub fn fee(p: &ConsensusParameters, metered: u64, limit: u64, price: u64) -> FeeV {
    let f = p.gas_price_factor as u128;
    if f == 0 {
        return FeeV::Overflow;
    }
    let max = u64::MAX as u128;
    let min_gas = p.gas_per_byte as u128 * metered as u128;
    let max_gas = min_gas.saturating_add(limit as u128);
    if max_gas > max {
        // gas itself does not fit
        return FeeV::Overflow;
    }
    let pb = min_gas * price as u128;
    let pt = max_gas * price as u128;
    let ceil = |a: u128| a / f + (a % f != 0) as u128;
    let (b, t) = (ceil(pb), ceil(pt));
    if t > max {
        return FeeV::Overflow;
    }
    let fee = Fee { bytes: b as u64, total: t as u64, min_gas: min_gas as u64, max_gas: max_gas as u64 };
    if pt > max {
        FeeV::Either(fee)
    } else {
        FeeV::Exact(fee)
    }
}
pub fn metered(m: &M) -> u64 {
    let mut m = m.clone();
    m.witnesses.clear();
    enc_bytes(&m).len() as u64
}

// ------------------------------------------------------------ rules
pub fn in_asset(i: &Input) -> Option<AssetId> {
    match i {
        Input::CoinSigned { asset_id, .. } | Input::CoinPredicate { asset_id, .. } => Some(*asset_id),
        Input::MessageSigned { .. } | Input::MessagePredicate { .. } => Some(AssetId::BASE),
        _ => None,
    }
}
pub fn in_amount(i: &Input) -> u64 {
    match i {
        Input::CoinSigned { amount, .. }
        | Input::CoinPredicate { amount, .. }
        | Input::MessageSigned { amount, .. }
        | Input::MessagePredicate { amount, .. } => *amount,
        _ => 0,
    }
}
fn dups<T: Ord + Clone>(it: impl Iterator<Item = T>) -> BTreeSet<T> {
    let mut seen = BTreeSet::new();
    let mut d = BTreeSet::new();
    for x in it {
        if !seen.insert(x.clone()) {
            d.insert(x);
        }
    }
    d
}
/// Every rule that is broken, as the errors that may name it.
pub fn broken_rules(m: &M, height: u64, p: &ConsensusParameters) -> Vec<CheckError> {
    use CheckError as E;
    let mut e = vec![];
    if m.kind == Kind::Mint {
        if m.outputs.len() as u64 > p.max_outputs {
            e.push(E::TransactionOutputsMax);
        }
        if m.tx_pointer.0 as u64 != height {
            e.push(E::TransactionMintIncorrectBlockHeight);
        }
        let mut assets = vec![];
        for o in &m.outputs {
            match o {
                Output::Coin { asset_id, .. } => assets.push(*asset_id),
                _ => e.push(E::TransactionMintOutputIsNotCoin),
            }
        }
        for a in dups(assets.into_iter()) {
            e.push(E::TransactionOutputCoinAssetIdDuplicated(a));
        }
        return e;
    }
    if m.gas_limit > p.max_gas_per_tx {
        e.push(E::TransactionGasLimit);
    }
    if m.maturity > height {
        e.push(E::TransactionMaturity);
    }
    if m.inputs.len() as u64 > p.max_inputs {
        e.push(E::TransactionInputsMax);
    }
    if m.outputs.len() as u64 > p.max_outputs {
        e.push(E::TransactionOutputsMax);
    }
    if m.witnesses.len() as u64 > p.max_witnesses {
        e.push(E::TransactionWitnessesMax);
    }
    let assets: BTreeSet<AssetId> = m.inputs.iter().filter_map(in_asset).collect();
    for a in dups(m.outputs.iter().filter_map(|o| match o {
        Output::Change { asset_id, .. } => Some(*asset_id),
        _ => None,
    })) {
        // (a repeated change for an asset that is no input breaks the next rule anyway)
        if assets.contains(&a) {
            e.push(E::TransactionOutputChangeAssetIdDuplicated(a));
        }
    }
    for u in dups(m.inputs.iter().filter_map(|i| match i {
        Input::CoinSigned { utxo_id, .. } | Input::CoinPredicate { utxo_id, .. } => {
            Some((**utxo_id.tx_id(), utxo_id.output_index()))
        }
        _ => None,
    })) {
        e.push(E::DuplicateInputUtxoId { utxo_id: UtxoId::new(u.0.into(), u.1) });
    }
    for c in dups(m.inputs.iter().filter_map(|i| match i {
        Input::Contract { contract_id, .. } => Some(*contract_id),
        _ => None,
    })) {
        e.push(E::DuplicateInputContractId { contract_id: c });
    }
    for c in dups(m.inputs.iter().filter_map(|i| match i {
        Input::MessageSigned { message_id, .. } | Input::MessagePredicate { message_id, .. } => Some(*message_id),
        _ => None,
    })) {
        e.push(E::DuplicateMessageInputId { message_id: c });
    }
    for (index, i) in m.inputs.iter().enumerate() {
        input_rules(index, i, m, p, &mut e);
    }
    for (index, o) in m.outputs.iter().enumerate() {
        match o {
            Output::Contract { input_index, .. } => {
                if !matches!(m.inputs.get(*input_index as usize), Some(Input::Contract { .. })) {
                    e.push(E::OutputContractInputIndex { index });
                }
            }
            Output::Change { asset_id, .. } if !assets.contains(asset_id) => {
                e.push(E::TransactionOutputChangeAssetIdNotFound(*asset_id))
            }
            Output::Coin { asset_id, .. } if !assets.contains(asset_id) => {
                e.push(E::TransactionOutputCoinAssetIdNotFound(*asset_id))
            }
            _ => {}
        }
    }
    if m.kind == Kind::Script {
        if m.script.len() as u64 > p.max_script_length {
            e.push(E::TransactionScriptLength);
        }
        if m.data.len() as u64 > p.max_script_data_length {
            e.push(E::TransactionScriptDataLength);
        }
        for (index, o) in m.outputs.iter().enumerate() {
            if let Output::ContractCreated { .. } = o {
                e.push(E::TransactionScriptOutputContractCreated { index });
            }
        }
        return e;
    }
    match m.witnesses.get(m.bytecode_witness_index as usize) {
        None => e.push(E::TransactionCreateBytecodeWitnessIndex),
        Some(w) => {
            let n = w.len() as u64;
            if n > p.contract_max_size || n / 4 != m.bytecode_length {
                e.push(E::TransactionCreateBytecodeLen);
            }
        }
    }
    if m.slots.len() as u64 > p.max_storage_slots {
        e.push(E::TransactionCreateStorageSlotMax);
    }
    if (1..m.slots.len()).any(|i| m.slots[i - 1].0 > m.slots[i].0) {
        e.push(E::TransactionCreateStorageSlotOrder);
    }
    for (index, i) in m.inputs.iter().enumerate() {
        if let Input::Contract { .. } = i {
            e.push(E::TransactionCreateInputContract { index });
        }
    }
    let mut created = 0;
    for (index, o) in m.outputs.iter().enumerate() {
        match o {
            Output::Contract { .. } => e.push(E::TransactionCreateOutputContract { index }),
            Output::Variable { .. } => e.push(E::TransactionCreateOutputVariable { index }),
            Output::Change { asset_id, .. } if *asset_id != AssetId::BASE => {
                e.push(E::TransactionCreateOutputChangeNotBaseAsset { index })
            }
            Output::ContractCreated { .. } => {
                created += 1;
                if created > 1 {
                    e.push(E::TransactionCreateOutputContractCreatedMultiple { index });
                }
            }
            _ => {}
        }
    }
    e
}
fn input_rules(index: usize, i: &Input, m: &M, p: &ConsensusParameters, e: &mut Vec<CheckError>) {
    use CheckError as E;
    match i {
        Input::CoinPredicate { predicate, predicate_data, .. }
        | Input::MessagePredicate { predicate, predicate_data, .. } => {
            if predicate.is_empty() {
                e.push(E::InputPredicateEmpty { index });
            }
            if predicate.len() as u64 > p.max_predicate_length {
                e.push(E::InputPredicateLength { index });
            }
            if predicate_data.len() as u64 > p.max_predicate_data_length {
                e.push(E::InputPredicateDataLength { index });
            }
        }
        Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } => {
            if *witness_index as usize >= m.witnesses.len() {
                e.push(E::InputWitnessIndexBounds { index });
            }
        }
        Input::Contract { .. } => {
            let n = m
                .outputs
                .iter()
                .filter(|o| matches!(o, Output::Contract{input_index,..} if *input_index as usize == index))
                .count();
            if n != 1 {
                e.push(E::InputContractAssociatedOutputContract { index });
            }
        }
    }
    if let Input::MessageSigned { data, .. } | Input::MessagePredicate { data, .. } = i {
        if data.len() as u64 > p.max_message_data_length {
            e.push(E::InputMessageDataLength { index });
        }
    }
}
/// Errors a lone input may be refused with (None = fine).
pub fn input_errors(m: &M, index: usize, p: &ConsensusParameters) -> Vec<CheckError> {
    let mut e = vec![];
    if let Some(i) = m.inputs.get(index) {
        input_rules(index, i, m, p, &mut e);
    }
    e
}

#[derive(Debug, Clone)]
pub enum Bal {
    Ok(BTreeMap<AssetId, u64>, Fee),
    Refused(Vec<CheckError>),
    /// acceptable either way
    Either(BTreeMap<AssetId, u64>, Fee),
}
/// Free balances of a transaction that breaks no rule of `broken_rules`.
pub fn balances(m: &M, p: &ConsensusParameters) -> Bal {
    use CheckError as E;
    let mut ins: BTreeMap<AssetId, u128> = BTreeMap::new();
    for i in &m.inputs {
        if let Some(a) = in_asset(i) {
            *ins.entry(a).or_default() += in_amount(i) as u128;
        }
    }
    ins.entry(AssetId::BASE).or_default();
    let mut errs = vec![];
    let max = u64::MAX as u128;
    if ins.values().any(|v| *v > max) {
        errs.push(E::ArithmeticOverflow);
    }
    let (fee, either) = match fee(p, metered(m), m.gas_limit, m.gas_price) {
        FeeV::Exact(f) => (Some(f), false),
        FeeV::Either(f) => (Some(f), true),
        FeeV::Overflow => (None, false),
    };
    if fee.is_none() || either {
        if fee.is_none() {
            errs.push(E::ArithmeticOverflow);
        }
    }
    let mut out: BTreeMap<AssetId, u128> = BTreeMap::new();
    for o in &m.outputs {
        if let Output::Coin { amount, asset_id, .. } = o {
            *out.entry(*asset_id).or_default() += *amount as u128;
        }
    }
    let mut bal: BTreeMap<AssetId, u64> = BTreeMap::new();
    for (a, v) in &ins {
        let f = if *a == AssetId::BASE { fee.map(|f| f.total).unwrap_or(0) as u128 } else { 0 };
        if f > *v {
            errs.push(E::InsufficientFeeAmount { expected: f as u64, provided: (*v).min(max) as u64 });
            // (coin outputs may be named as well)
        }
        let o = out.get(a).copied().unwrap_or(0);
        if f + o > *v && o > 0 {
            errs.push(E::InsufficientInputAmount { asset: *a, expected: 0, provided: 0 });
        }
        bal.insert(*a, v.saturating_sub(f + o).min(max) as u64);
    }
    for a in out.keys() {
        if !ins.contains_key(a) {
            errs.push(E::TransactionOutputCoinAssetIdNotFound(*a));
        }
    }
    if !errs.is_empty() {
        if either {
            errs.push(E::ArithmeticOverflow);
        }
        return Bal::Refused(errs);
    }
    let f = fee.unwrap();
    if either {
        Bal::Either(bal, f)
    } else {
        Bal::Ok(bal, f)
    }
}
/// Is `got` one of the errors allowed? (amounts in "insufficient input" depend on the order of
/// deduction, so only the asset is compared.)
pub fn names_broken_rule(got: &CheckError, allowed: &[CheckError]) -> bool {
    allowed.iter().any(|a| match (got, a) {
        (
            CheckError::InsufficientInputAmount { asset: x, expected, provided },
            CheckError::InsufficientInputAmount { asset: y, .. },
        ) => x == y && provided < expected,
        (x, y) => x == y,
    })
}
/// Errors of the authorisation rule, given verified facts about signatures.
pub fn auth_errors(m: &M, txid: &B32) -> Vec<CheckError> {
    use CheckError as E;
    let mut e = vec![];
    for (index, i) in m.inputs.iter().enumerate() {
        match i {
            Input::CoinSigned { witness_index, owner, .. }
            | Input::MessageSigned { witness_index, recipient: owner, .. } => {
                match m.witnesses.get(*witness_index as usize) {
                    None => e.push(E::InputWitnessIndexBounds { index }),
                    Some(w) => {
                        if !signed_by(w, txid, owner) {
                            e.push(E::InputInvalidSignature { index });
                        }
                    }
                }
            }
            Input::CoinPredicate { owner, predicate, .. }
            | Input::MessagePredicate { recipient: owner, predicate, .. } => {
                if predicate_owner(predicate) != **owner {
                    e.push(E::InputPredicateOwner { index });
                }
            }
            _ => {}
        }
    }
    e
}
thread_local! {
    static RECOVERED: std::cell::RefCell<std::collections::HashMap<([u8; 64], B32), Option<B32>>> = Default::default();
}
/// Owner whose key made this signature of txid (a pure function; recovery is slow, so remembered).
fn signer_of(s: [u8; 64], txid: &B32) -> Option<B32> {
    let k = (s, *txid);
    if let Some(r) = RECOVERED.with(|m| m.borrow().get(&k).copied()) {
        return r;
    }
    let sig = unsafe { fuel_crypto::Signature::from_bytes_unchecked(s) };
    let msg = unsafe { fuel_crypto::Message::from_bytes_unchecked(*txid) };
    let r = sig.recover(&msg).ok().map(|pk| owner_of(pk.as_ref()));
    RECOVERED.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 4096 {
            m.clear();
        }
        m.insert(k, r)
    });
    r
}
pub fn signed_by(w: &[u8], txid: &B32, owner: &Address) -> bool {
    let Ok(s) = <[u8; 64]>::try_from(w) else { return false };
    signer_of(s, txid) == Some(**owner)
}

// ------------------------------------------------------------ receipts
fn pad8(n: usize) -> usize {
    (n + 7) / 8 * 8
}
/// Canonical journal form of a receipt.
pub fn enc_receipt(r: &Receipt) -> Enc {
    let mut e = Enc::default();
    match r {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => {
            e.w("tag", 0);
            e.a("r.id", id.as_ref());
            e.a("r.to", to.as_ref());
            e.w("r.amount", *amount);
            e.a("r.asset", asset_id.as_ref());
            e.w("r.gas", *gas);
            e.w("r.param1", *param1);
            e.w("r.param2", *param2);
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::Return { id, val, pc, is } => {
            e.w("tag", 1);
            e.a("r.id", id.as_ref());
            e.w("r.val", *val);
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            e.w("tag", 2);
            e.a("r.id", id.as_ref());
            e.w("r.ptr", *ptr);
            e.w("r.len", *len);
            e.a("r.digest", digest.as_ref());
            e.w("len.data", data.len() as u64);
            e.p("r.data", data);
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::Panic { id, reason, pc, is, .. } => {
            e.w("tag", 3);
            e.a("r.id", id.as_ref());
            e.w("r.reason", u64::from(*reason));
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::Revert { id, ra, pc, is } => {
            e.w("tag", 4);
            e.a("r.id", id.as_ref());
            e.w("r.ra", *ra);
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => {
            e.w("tag", 5);
            e.a("r.id", id.as_ref());
            e.w("r.ra", *ra);
            e.w("r.rb", *rb);
            e.w("r.rc", *rc);
            e.w("r.rd", *rd);
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            e.w("tag", 6);
            e.a("r.id", id.as_ref());
            e.w("r.ra", *ra);
            e.w("r.rb", *rb);
            e.w("r.ptr", *ptr);
            e.w("r.len", *len);
            e.a("r.digest", digest.as_ref());
            e.w("len.data", data.len() as u64);
            e.p("r.data", data);
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => {
            e.w("tag", 7);
            e.a("r.id", id.as_ref());
            e.a("r.to", to.as_ref());
            e.w("r.amount", *amount);
            e.a("r.asset", asset_id.as_ref());
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => {
            e.w("tag", 8);
            e.a("r.id", id.as_ref());
            e.a("r.to", to.as_ref());
            e.w("r.amount", *amount);
            e.a("r.asset", asset_id.as_ref());
            e.w("r.pc", *pc);
            e.w("r.is", *is);
        }
        Receipt::ScriptResult { result, gas_used } => {
            e.w("tag", 9);
            e.w("r.result", result_code(result));
            e.w("r.gas_used", *gas_used);
            e.a("r.unused", &[0; 48]);
        }
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
            e.w("tag", 10);
            e.a("r.message_id", message_id.as_ref());
            e.a("r.sender", sender.as_ref());
            e.a("r.recipient", recipient.as_ref());
            e.w("r.amount", *amount);
            e.a("r.nonce", nonce.as_ref());
            e.w("r.len", *len);
            e.a("r.digest", digest.as_ref());
            e.w("len.data", data.len() as u64);
            e.p("r.data", data);
            e.a("r.unused", &[0; 48]);
        }
    }
    e
}
fn result_code(r: &ScriptExecutionResult) -> u64 {
    match r {
        ScriptExecutionResult::Success => 0,
        ScriptExecutionResult::Revert => 1,
        ScriptExecutionResult::Panic => 2,
        ScriptExecutionResult::GenericFailure(v) => *v,
    }
}
/// Journal form plus what the journal form does not tell apart.
pub fn strict_receipt(r: &Receipt) -> Vec<u8> {
    let mut b = enc_receipt(r).b;
    if let Receipt::ScriptResult { result, .. } = r {
        b.push(match result {
            ScriptExecutionResult::GenericFailure(_) => 1,
            _ => 0,
        });
    }
    b
}
/// Longest-form meaning of journal bytes: canonical bytes and the length of the record.
pub fn dec_receipt(b: &[u8]) -> Result<(Receipt, usize), DecErr> {
    let mut d = Dec::new(b);
    let t = d.word()?;
    let r = match t {
        0 => Receipt::Call {
            id: d.b32()?.into(),
            to: d.b32()?.into(),
            amount: d.word()?,
            asset_id: d.b32()?.into(),
            gas: d.word()?,
            param1: d.word()?,
            param2: d.word()?,
            pc: d.word()?,
            is: d.word()?,
        },
        1 => Receipt::Return { id: d.b32()?.into(), val: d.word()?, pc: d.word()?, is: d.word()? },
        2 => {
            let (id, ptr, len, digest) = (d.b32()?.into(), d.word()?, d.word()?, d.b32()?.into());
            let data = d.witness()?;
            Receipt::ReturnData { id, ptr, len, digest, data, pc: d.word()?, is: d.word()? }
        }
        3 => Receipt::Panic {
            id: d.b32()?.into(),
            reason: fuel_asm::InstructionResult::from(d.word()?),
            pc: d.word()?,
            is: d.word()?,
            contract_id: None,
        },
        4 => Receipt::Revert { id: d.b32()?.into(), ra: d.word()?, pc: d.word()?, is: d.word()? },
        5 => Receipt::Log {
            id: d.b32()?.into(),
            ra: d.word()?,
            rb: d.word()?,
            rc: d.word()?,
            rd: d.word()?,
            pc: d.word()?,
            is: d.word()?,
        },
        6 => {
            let (id, ra, rb) = (d.b32()?.into(), d.word()?, d.word()?);
            let (ptr, len, digest) = (d.word()?, d.word()?, d.b32()?.into());
            let data = d.witness()?;
            Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc: d.word()?, is: d.word()? }
        }
        7 => Receipt::Transfer {
            id: d.b32()?.into(),
            to: d.b32()?.into(),
            amount: d.word()?,
            asset_id: d.b32()?.into(),
            pc: d.word()?,
            is: d.word()?,
        },
        8 => Receipt::TransferOut {
            id: d.b32()?.into(),
            to: d.b32()?.into(),
            amount: d.word()?,
            asset_id: d.b32()?.into(),
            pc: d.word()?,
            is: d.word()?,
        },
        9 => {
            let (r, gas_used) = (d.word()?, d.word()?);
            d.raw(48)?;
            let result = match r {
                0 => ScriptExecutionResult::Success,
                1 => ScriptExecutionResult::Revert,
                2 => ScriptExecutionResult::Panic,
                v => ScriptExecutionResult::GenericFailure(v),
            };
            Receipt::ScriptResult { result, gas_used }
        }
        10 => {
            let message_id = d.b32()?.into();
            let sender = d.b32()?.into();
            let recipient = d.b32()?.into();
            let amount = d.word()?;
            let nonce = d.b32()?.into();
            let len = d.word()?;
            let digest = d.b32()?.into();
            let data = d.witness()?;
            d.raw(48)?;
            Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data }
        }
        _ => return Err(DecErr::Tag),
    };
    Ok((r, d.p))
}
pub fn padded(n: usize) -> usize {
    pad8(n)
}
