//! C06, C07, C08, C16: ids, derived data, positions, preparation.
use crate::core::*;
use crate::gen::*;
use crate::item::*;
use crate::model::*;
use crate::Scenario;
use fuel_tx::field::{
    BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _,
    Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _,
    Witnesses as _,
};
use fuel_tx::*;
use fuel_types::bytes::SizedBytes as _;
use std::collections::BTreeMap;

pub fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario {
            id: "C06",
            f: c06_ids,
            quick: 400_000,
            what: "parties pass one transaction around over a lossy, duplicating, reordering network in wire, JSON and bincode form, bare and wrapped, into reused targets; they precompute, sign, attach witnesses, prepare, execute and crash and restart in seeded order; then tampering parties edit single fields",
            real: "id of Transaction, Script, Create, Mint; codecs; precompute; sign_inputs; prepare_init_script, prepare_init_predicate",
            stub: "network, durable store and executor (simulated), id model (independent)",
        },
        Scenario {
            id: "C07",
            f: c07_derived,
            quick: 200_000,
            what: "several copies of transactions go through a seeded history of precomputation, edits, cloning, encoding, decoding over existing values (complete and torn), serialisation, restarts, preparation, execution and signing; after every step every derived answer of every copy is compared with the layout model",
            real: "precompute, is_computed, id, all position queries, codecs, serde forms, sign_inputs, prepare_init_*",
            stub: "restart and storage (simulated), layout model (independent)",
        },
        Scenario {
            id: "C08",
            f: c08_positions,
            quick: 400_000,
            what: "an executor loads an encoding into a simulated memory image among stale bytes and reads and patches it at the advertised positions in a seeded sequence, with crashes that reload the image; the patched image is decoded and compared with a model edited the same way",
            real: "all *_offset, *_offset_at, *_offset_static and Input/Output representation position queries, before and after precomputation; encoder and decoder",
            stub: "VM memory (simulated), layout model (independent)",
        },
        Scenario {
            id: "C16",
            f: c16_prepare,
            quick: 400_000,
            what: "an executor prepares a transaction, fills in results, crashes at a seeded step, restarts from its store and tries again, in seeded order of script and predicate preparation; every state is compared with the model and all attempts must start from the same bytes",
            real: "prepare_init_script, prepare_init_predicate of transactions, inputs and outputs; id; check_signatures; codecs",
            stub: "executor and durable store (simulated), malleability model (independent)",
        },
    ]
}

/// Run an expression on the specific transaction inside an item.
macro_rules! each_tx {
    ($it:expr, $t:ident => $e:expr, mint $m:ident => $f:expr) => {
        match $it {
            Item::Script($t) | Item::Tx(Transaction::Script($t)) => $e,
            Item::Create($t) | Item::Tx(Transaction::Create($t)) => $e,
            Item::Mint($m) | Item::Tx(Transaction::Mint($m)) => $f,
            _ => unreachable!("not a transaction"),
        }
    };
}
pub(crate) use each_tx;

/// Give an existing transaction the content of the model, through its setters.
pub fn assign(it: &mut Item, m: &M) {
    fn common<T>(t: &mut T, m: &M)
    where
        T: field::GasPrice + field::GasLimit + field::Maturity + field::Inputs + field::Outputs + field::Witnesses,
    {
        *t.gas_price_mut() = m.gas_price;
        *t.gas_limit_mut() = m.gas_limit;
        *t.maturity_mut() = m.maturity;
        *t.inputs_mut() = m.inputs.clone();
        *t.outputs_mut() = m.outputs.clone();
        *t.witnesses_mut() = m.witnesses.iter().map(|w| Witness::from(w.clone())).collect();
    }
    match it {
        Item::Script(t) | Item::Tx(Transaction::Script(t)) => {
            common(t, m);
            *t.receipts_root_mut() = m.receipts_root.into();
            *t.script_mut() = m.script.clone();
            *t.script_data_mut() = m.data.clone();
        }
        Item::Create(t) | Item::Tx(Transaction::Create(t)) => {
            common(t, m);
            *t.bytecode_length_mut() = m.bytecode_length;
            *t.bytecode_witness_index_mut() = m.bytecode_witness_index;
            *t.salt_mut() = m.salt.into();
            *t.storage_slots_mut() = m.slots.iter().map(slot).collect();
        }
        Item::Mint(t) | Item::Tx(Transaction::Mint(t)) => {
            *t.tx_pointer_mut() = TxPointer::new(m.tx_pointer.0, m.tx_pointer.1);
            *t.outputs_mut() = m.outputs.clone();
        }
        _ => {}
    }
}
pub fn wrapped(it: Item) -> Item {
    match it {
        Item::Script(t) => Item::Tx(t.into()),
        Item::Create(t) => Item::Tx(t.into()),
        Item::Mint(t) => Item::Tx(t.into()),
        x => x,
    }
}
pub fn unwrapped(it: Item) -> Item {
    match it {
        Item::Tx(Transaction::Script(t)) => Item::Script(t),
        Item::Tx(Transaction::Create(t)) => Item::Create(t),
        Item::Tx(Transaction::Mint(t)) => Item::Mint(t),
        x => x,
    }
}
pub fn item_of(c: &mut Ctx, m: &M) -> Item {
    let it = Item::of_model(Ty::Tx, m);
    if c.chance(1, 2) {
        unwrapped(it)
    } else {
        it
    }
}

// ------------------------------------------------------------------ codecs
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Codec {
    Wire,
    Json,
    Bincode,
}
pub const CODECS: [Codec; 3] = [Codec::Wire, Codec::Json, Codec::Bincode];

/// A codec in which this content travels unchanged (a predicate that is empty reads as no
/// predicate in wire form).
pub fn codec_for(c: &mut Ctx, it: &Item) -> Codec {
    let k = *c.pick(&CODECS);
    if k != Codec::Wire {
        return k;
    }
    let hollow = |i: &Input| matches!(i, Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } if predicate.is_empty());
    let any = match it {
        Item::Input(i) => hollow(i),
        _ => it.snap().is_some_and(|m| m.inputs.iter().any(hollow)),
    };
    if any {
        Codec::Bincode
    } else {
        k
    }
}
pub fn ser(it: &mut Item, k: Codec) -> R<Vec<u8>> {
    macro_rules! with {
        ($x:ident) => {
            match k {
                Codec::Wire => unreachable!(),
                Codec::Json => serde_json::to_vec($x).map_err(|e| e.to_string()),
                Codec::Bincode => bincode::serialize($x).map_err(|e| e.to_string()),
            }
        };
    }
    if k == Codec::Wire {
        return Ok(it.to_bytes());
    }
    let r = match it {
        Item::Tx(x) => with!(x),
        Item::Script(x) => with!(x),
        Item::Create(x) => with!(x),
        Item::Mint(x) => with!(x),
        Item::Input(x) => with!(x),
        Item::Output(x) => with!(x),
        Item::Witness(x) => with!(x),
        Item::Slot(x) => with!(x),
        Item::Utxo(x) => with!(x),
        Item::Ptr(x) => with!(x),
        Item::Receipt(x) => with!(x),
    };
    r.or_else(|e| viol("serialise", format!("{k:?} form refused: {e}: {}", it.describe())))
}
pub fn de(ty: Ty, k: Codec, b: &[u8]) -> Result<Item, String> {
    macro_rules! with {
        ($v:ident) => {
            match k {
                Codec::Wire => unreachable!(),
                Codec::Json => serde_json::from_slice(b).map(Item::$v).map_err(|e| e.to_string()),
                Codec::Bincode => bincode::deserialize(b).map(Item::$v).map_err(|e| e.to_string()),
            }
        };
    }
    if k == Codec::Wire {
        return Item::from_bytes(ty, b).map_err(|e| format!("{e:?}"));
    }
    match ty {
        Ty::Tx => with!(Tx),
        Ty::Script => with!(Script),
        Ty::Create => with!(Create),
        Ty::Mint => with!(Mint),
        Ty::Input => with!(Input),
        Ty::Output => with!(Output),
        Ty::Witness => with!(Witness),
        Ty::Slot => with!(Slot),
        Ty::Utxo => with!(Utxo),
        Ty::Ptr => with!(Ptr),
        Ty::Receipt => with!(Receipt),
    }
}

// ------------------------------------------------------------------ derived answers
/// (question, index, answer); None answers are kept.
pub type Ans = Vec<(&'static str, usize, Option<(usize, usize)>)>;

fn one(o: usize) -> Option<(usize, usize)> {
    Some((o, 0))
}
/// What the library says.
pub fn answers(it: &Item) -> (B32, Ans) {
    fn lists<T: field::Inputs + field::Outputs + field::Witnesses>(t: &T, a: &mut Ans) {
        a.push(("inputs", 0, one(t.inputs_offset())));
        a.push(("outputs", 0, one(t.outputs_offset())));
        a.push(("witnesses", 0, one(t.witnesses_offset())));
        let far = [usize::MAX, 1 << 20];
        for i in (0..t.inputs().len() + 2).chain(far) {
            a.push(("input", i, t.inputs_offset_at(i).map(|o| (o, 0))));
            a.push(("in.predicate", i, t.inputs_predicate_offset_at(i)));
        }
        for i in (0..t.outputs().len() + 2).chain(far) {
            a.push(("output", i, t.outputs_offset_at(i).map(|o| (o, 0))));
        }
        for i in (0..t.witnesses().len() + 2).chain(far) {
            a.push(("witness", i, t.witnesses_offset_at(i).map(|o| (o, 0))));
        }
    }
    let mut a: Ans = vec![];
    match it {
        Item::Script(t) | Item::Tx(Transaction::Script(t)) => {
            a.push(("gas_price", 0, one(t.gas_price_offset())));
            a.push(("gas_limit", 0, one(t.gas_limit_offset())));
            a.push(("maturity", 0, one(t.maturity_offset())));
            a.push(("receipts_root", 0, one(t.receipts_root_offset())));
            a.push(("script", 0, one(t.script_offset())));
            a.push(("script_data", 0, one(t.script_data_offset())));
            lists(t, &mut a);
        }
        Item::Create(t) | Item::Tx(Transaction::Create(t)) => {
            a.push(("gas_price", 0, one(t.gas_price_offset())));
            a.push(("gas_limit", 0, one(t.gas_limit_offset())));
            a.push(("maturity", 0, one(t.maturity_offset())));
            a.push(("bytecode_length", 0, one(t.bytecode_length_offset())));
            a.push(("bytecode_witness_index", 0, one(t.bytecode_witness_index_offset())));
            a.push(("salt", 0, one(t.salt_offset())));
            a.push(("slots", 0, one(t.storage_slots_offset())));
            for i in (0..t.storage_slots().len() + 2).chain([1 << 20]) {
                a.push(("slot", i, t.storage_slots_offset_at(i).map(|o| (o, 0))));
            }
            lists(t, &mut a);
        }
        Item::Mint(t) | Item::Tx(Transaction::Mint(t)) => {
            a.push(("tx_pointer", 0, one(t.tx_pointer_offset())));
            a.push(("outputs", 0, one(t.outputs_offset())));
            for i in (0..t.outputs().len() + 2).chain([usize::MAX, 1 << 20]) {
                a.push(("output", i, t.outputs_offset_at(i).map(|o| (o, 0))));
            }
        }
        _ => {}
    }
    a.push(("size", 0, one(it.size())));
    (it.id().unwrap_or_default(), a)
}
/// What the layout says to the same questions.
pub fn model_answers(m: &M) -> (B32, Ans) {
    let e = enc(m);
    let mut by: BTreeMap<(&str, usize), F> = BTreeMap::new();
    for f in &e.f {
        by.entry((f.k, f.i)).or_insert(*f);
    }
    let mut a: Ans = vec![];
    let mut ask = |k: &'static str, i: usize, lens: bool| {
        let v = by.get(&(k, i)).map(|f| (f.off, if lens { f.len } else { 0 }));
        a.push((k, i, v));
    };
    let far = [usize::MAX, 1 << 20];
    match m.kind {
        Kind::Mint => ask("tx_pointer", 0, false),
        k => {
            ask("gas_price", 0, false);
            ask("gas_limit", 0, false);
            ask("maturity", 0, false);
            if k == Kind::Script {
                ask("receipts_root", 0, false);
                ask("script", 0, false);
                ask("script_data", 0, false);
            } else {
                ask("bytecode_length", 0, false);
                ask("bytecode_witness_index", 0, false);
                ask("salt", 0, false);
                ask("slots", 0, false);
                for i in (0..m.slots.len() + 2).chain([1 << 20]) {
                    ask("slot", i, false);
                }
            }
            ask("inputs", 0, false);
        }
    }
    ask("outputs", 0, false);
    if m.kind != Kind::Mint {
        ask("witnesses", 0, false);
        for i in (0..m.inputs.len() + 2).chain(far) {
            ask("input", i, false);
            // an input without predicate has no predicate position
            ask("in.predicate", i, true);
        }
    }
    for i in (0..m.outputs.len() + 2).chain(far) {
        ask("output", i, false);
    }
    if m.kind != Kind::Mint {
        for i in (0..m.witnesses.len() + 2).chain(far) {
            ask("witness", i, false);
        }
    }
    a.push(("size", 0, one(e.b.len())));
    (id(m), a)
}
fn compare_answers(it: &Item, m: &M, when: &str) -> R {
    let (gi, ga) = answers(it);
    let (wi, wa) = model_answers(m);
    ensure!(gi == wi, "derived-id", "{when}: id is {} but the content gives {}: {}", hex(&gi), hex(&wi), describe(m));
    let bad = ga.iter().zip(&wa).find(|(x, y)| x != y);
    if let Some((g, w)) = bad {
        return viol(
            format!("derived-position:{}", g.0),
            format!("{when}: position of {} {} reported as {:?}, the encoding has it at {:?}: {}", g.0, g.1, g.2, w.2, describe(m)),
        );
    }
    ensure!(ga.len() == wa.len(), "HARNESS", "questions differ");
    Ok(())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().take(8).map(|x| format!("{x:02x}")).collect::<String>() + "…"
}

// ------------------------------------------------------------------ C06
/// edits that move content across a boundary or reorder elements, besides single fields
fn intent_edit(c: &mut Ctx, s: &Swarm, m: &mut M) -> (&'static str, bool) {
    let before = id_preimage(m);
    let label = match c.below(9) {
        0 if m.kind == Kind::Script && !m.script.is_empty() => {
            let k = [1, 8, m.script.len()][c.below(3)].min(m.script.len());
            let tail = m.script.split_off(m.script.len() - k);
            m.data = [tail, std::mem::take(&mut m.data)].concat();
            "script moved to script data"
        }
        1 if m.inputs.len() > 1 => {
            let i = c.below(m.inputs.len() - 1);
            m.inputs.swap(i, i + 1);
            "inputs swapped"
        }
        2 if m.outputs.len() > 1 => {
            let i = c.below(m.outputs.len() - 1);
            m.outputs.swap(i, i + 1);
            "outputs swapped"
        }
        3 if m.slots.len() > 1 => {
            let i = c.below(m.slots.len() - 1);
            m.slots.swap(i, i + 1);
            "slots swapped"
        }
        4 => {
            for i in m.inputs.iter_mut() {
                if let Input::CoinPredicate { predicate, predicate_data, .. }
                | Input::MessagePredicate { predicate, predicate_data, .. } = i
                {
                    if predicate.len() > 1 {
                        let k = if predicate.len() > 8 && c.chance(1, 2) { 8 } else { 1 };
                        let tail = predicate.split_off(predicate.len() - k);
                        *predicate_data = [tail, std::mem::take(predicate_data)].concat();
                        break;
                    }
                }
            }
            "predicate moved to predicate data"
        }
        5 if !m.outputs.is_empty() => {
            // another output of the same shape
            let i = c.below(m.outputs.len());
            m.outputs[i] = match m.outputs[i] {
                Output::Coin { to, amount, asset_id } => Output::Change { to, amount, asset_id },
                Output::Change { to, amount, asset_id } => Output::Variable { to, amount, asset_id },
                Output::Variable { to, amount, asset_id } => Output::Coin { to, amount, asset_id },
                Output::Contract { balance_root, .. } => {
                    Output::ContractCreated { contract_id: (*balance_root).into(), state_root: balance_root }
                }
                o => o,
            };
            "output of another kind"
        }
        _ => return field_edit(c, s, m),
    };
    (label, id_preimage(m) != before)
}

fn c06_ids(c: &mut Ctx) -> R {
    let s = swarm(c);
    let p = ConsensusParameters::DEFAULT;
    let mut m = if c.chance(1, 2) {
        let k = kind(c);
        valid_tx(c, &s, &p, 5, k)
    } else {
        any_tx(c, &s)
    };
    let want = id(&m);
    c.note(shape(&m));
    c.log(|| format!("transaction {} id {}", describe(&m), hex(&want)));
    let n = c.range(2, 4);
    let mut net = Net::swarm(c, false);
    // volatile copy and durable record of each party
    let mut held: Vec<Option<Item>> = (0..n).map(|_| None).collect();
    let mut disk: Vec<Option<(Ty, Codec, Vec<u8>)>> = (0..n).map(|_| None).collect();
    let mut first = item_of(c, &m);
    let b = ser(&mut first, Codec::Wire)?;
    disk[0] = Some((first.ty(), Codec::Wire, b));
    held[0] = Some(first);
    let steps = 4 + c.below(16);
    let same = |it: &Item, who: usize, what: &str| -> R {
        let got = it.id().unwrap_or_default();
        ensure!(
            got == want,
            "id-changed",
            "party {who} after {what}: id {} instead of {}: {}",
            hex(&got),
            hex(&want),
            it.describe()
        );
        Ok(())
    };
    same(held[0].as_ref().unwrap(), 0, "creation")?;
    for _ in 0..steps {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        // deliver what is due
        while net.q.iter().any(|q| q.at <= c.ticks) {
            let Some(q) = net.next(c) else { break };
            let ty = TYPES[(q.tag % 16) as usize];
            let codec = CODECS[(q.tag / 16) as usize];
            let got = if codec == Codec::Wire && c.chance(1, 3) && held[q.to].as_ref().is_some_and(|h| h.ty() == ty) {
                let mut t = held[q.to].take().unwrap();
                match t.decode(&q.bytes) {
                    Ok(_) => t,
                    Err(e) => return viol("relay-refused", format!("{ty:?} in wire form refused into a reused target: {e:?}")),
                }
            } else {
                match de(ty, codec, &q.bytes) {
                    Ok(t) => t,
                    Err(e) => return viol("relay-refused", format!("{ty:?} in {codec:?} form refused: {e}")),
                }
            };
            c.nontrivial = true;
            c.log(|| format!("party {} receives {ty:?} in {codec:?} form from {}", q.to, q.from));
            c.note(mix(ty as u64, codec as u64));
            same(&got, q.to, "receiving")?;
            held[q.to] = Some(got);
        }
        let who = c.below(n);
        let Some(mut it) = held[who].take() else {
            // restart of a party that has nothing in memory
            if let Some((ty, k, b)) = &disk[who] {
                let got = de(*ty, *k, b).or_else(|e| viol("restart-refused", format!("{ty:?} in {k:?} form refused: {e}")))?;
                c.count("fault.restart");
                same(&got, who, "restart")?;
                held[who] = Some(got);
            }
            continue;
        };
        let act = c.below(13);
        c.note(act as u64 + 100);
        let label = match act {
            0..=2 => {
                let k = *c.pick(&CODECS);
                let b = ser(&mut it, k)?;
                let to = (who + 1 + c.below(n - 1)) % n;
                let tag = TYPES.iter().position(|t| *t == it.ty()).unwrap() as u64 + 16 * CODECS.iter().position(|x| *x == k).unwrap() as u64;
                net.send(c, who, to, b, tag);
                "sending"
            }
            3 => {
                it.precompute();
                "precomputation"
            }
            4 => {
                it = if it.ty() == Ty::Tx { unwrapped(it) } else { wrapped(it) };
                "wrapping"
            }
            5 => {
                let mut x = it.snap().unwrap();
                if x.kind != Kind::Mint {
                    match c.below(4) {
                        0 => x.witnesses.push(blob(c, &s)),
                        1 => {
                            x.witnesses.pop();
                        }
                        2 => x.witnesses.clear(),
                        _ => {
                            let b = blob(c, &s);
                            if let Some(w) = x.witnesses.first_mut() {
                                *w = b
                            }
                        }
                    }
                    assign(&mut it, &x);
                }
                "witness edit"
            }
            6 | 7 => {
                let k = key(c.below(KEYS)).0;
                each_tx!(&mut it, t => t.sign_inputs(&k), mint _t => ());
                "signing"
            }
            8 => {
                let mut x = it.snap().unwrap();
                execute_fill(c, &s, &mut x, 8);
                assign(&mut it, &x);
                "execution"
            }
            9 => {
                each_tx!(&mut it, t => { t.prepare_init_script(); }, mint _t => ());
                "script preparation"
            }
            10 => {
                each_tx!(&mut it, t => { t.prepare_init_predicate(); }, mint _t => ());
                "predicate preparation"
            }
            11 => {
                let k = *c.pick(&CODECS);
                disk[who] = Some((it.ty(), k, ser(&mut it, k)?));
                "storing"
            }
            _ => {
                c.count("fault.crash");
                c.log(|| format!("party {who} crashes"));
                continue; // memory lost
            }
        };
        c.log(|| format!("party {who}: {label}"));
        c.nontrivial = true;
        same(&it, who, label)?;
        held[who] = Some(it);
    }
    // tampering: an edit of intent changes the id, of anything else does not
    let mut seen: BTreeMap<Vec<u8>, B32> = BTreeMap::new();
    let mut back: BTreeMap<B32, Vec<u8>> = BTreeMap::new();
    seen.insert(id_preimage(&m), want);
    back.insert(want, id_preimage(&m));
    let edits = 1 + c.below(4);
    for _ in 0..edits {
        c.mark();
        let before = id(&m);
        let (label, covered) = intent_edit(c, &s, &mut m);
        let mut it = item_of(c, &m);
        if c.chance(1, 3) {
            it.precompute();
        }
        let got = it.id().unwrap_or_default();
        c.note(hash_bytes(label.as_bytes()));
        c.log(|| format!("tampering: {label} (covered: {covered})"));
        if covered {
            c.count("tampered_intent");
            ensure!(got != before, "id-blind", "id {} did not change with: {label}: {}", hex(&got), describe(&m));
        } else {
            ensure!(got == before, "id-malleable", "id changed from {} to {} with: {label}: {}", hex(&before), hex(&got), describe(&m));
        }
        ensure!(got == id(&m), "id-formula", "id {} is not the hash of the signed content, {}: after {label}: {}", hex(&got), hex(&id(&m)), describe(&m));
        let pre = id_preimage(&m);
        if let Some(x) = seen.insert(pre.clone(), got) {
            ensure!(x == got, "id-unstable", "one content, two ids: {}", describe(&m));
        }
        if let Some(x) = back.insert(got, pre.clone()) {
            ensure!(x == pre, "id-collision", "two contents share an id: {}", describe(&m));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
struct Copy7 {
    it: Item,
    m: M,
    stale: bool,
}
fn c07_derived(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut copies: Vec<Copy7> = vec![];
    let k = 1 + c.below(2);
    for _ in 0..k {
        let m = any_tx(c, &s);
        c.note(shape(&m));
        let it = item_of(c, &m);
        copies.push(Copy7 { it, m, stale: false });
    }
    let steps = 3 + c.below(14);
    for _ in 0..steps {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        let at = c.below(copies.len());
        let act = c.below(15);
        c.note(act as u64);
        let mut added: Option<Copy7> = None;
        // content edits: stale when they change what the derived data was computed for
        let edit = |x: &mut Copy7, m: M| {
            if x.it.is_computed() && !x.stale {
                x.stale = model_answers(&x.m) != model_answers(&m);
            }
            x.m = m;
        };
        let others: Vec<(Vec<u8>, bool)> = copies.iter().map(|x| (x.it.strict(), x.it.is_computed())).collect();
        let label = match act {
            0..=2 => {
                let x = &mut copies[at];
                x.it.precompute();
                x.stale = false;
                ensure!(x.it.is_computed(), "not-computed", "precomputed, but is_computed is false");
                "precompute"
            }
            3 | 4 => {
                let mut m = copies[at].m.clone();
                let (l, _) = field_edit(c, &s, &mut m);
                let x = &mut copies[at];
                assign(&mut x.it, &m);
                edit(x, m);
                l
            }
            5 => {
                let x = &copies[at];
                added = Some(Copy7 { it: x.it.clone(), m: x.m.clone(), stale: x.stale });
                "clone"
            }
            6 => {
                // (the cached answers may lag behind an edit, the encoding may not)
                let x = &mut copies[at];
                let b = x.it.to_bytes();
                ensure!(b == enc_bytes(&x.m), "encode", "encoding is not of the content: {}", describe(&x.m));
                "encode"
            }
            7 | 8 => {
                // decode over an existing value
                let m = if c.chance(1, 2) {
                    let mut m = copies[at].m.clone();
                    field_edit(c, &s, &mut m);
                    m
                } else {
                    any_tx(c, &s)
                };
                let mut b = enc_bytes(&m);
                let whole = c.chance(2, 3);
                if !whole {
                    c.count("fault.torn");
                    let n = c.below(b.len());
                    b.truncate(n);
                }
                let x = &mut copies[at];
                if x.it.ty() != Ty::Tx && m.kind != x.m.kind {
                    "nothing"
                } else {
                    let r = x.it.decode(&b);
                    match (r, whole) {
                        (Ok(_), true) => {
                            // predicates that are empty come back as signed
                            x.m = m;
                            x.stale = false;
                            ensure!(
                                strict(&x.it.snap().unwrap()) == strict(&x.m),
                                "decode",
                                "decoding over an existing value gave something else: {}",
                                x.it.describe()
                            );
                            "decode over"
                        }
                        (Err(_), false) => "torn decode over",
                        (Err(e), true) => return viol("decode", format!("complete encoding refused: {e:?}: {}", describe(&m))),
                        (Ok(_), false) => return viol("decode", format!("torn encoding accepted: {}", describe(&m))),
                    }
                }
            }
            9 => {
                // stored and loaded after a restart
                let k = *c.pick(&CODECS);
                let x = &mut copies[at];
                let b = ser(&mut x.it, k)?;
                let got = de(x.it.ty(), k, &b).or_else(|e| viol("restart-refused", format!("{k:?} form refused: {e}")))?;
                ensure!(strict(&got.snap().unwrap()) == strict(&x.m), "restart-content", "{k:?} form changed the content: {}", describe(&x.m));
                c.count("fault.restart");
                x.it = got;
                x.stale = false;
                "restart"
            }
            10 => {
                let x = &mut copies[at];
                let it = std::mem::replace(&mut x.it, Item::blank(Ty::Tx));
                x.it = if it.ty() == Ty::Tx { unwrapped(it) } else { wrapped(it) };
                "wrap"
            }
            11 => {
                let x = &mut copies[at];
                let mut m = x.m.clone();
                if m.kind != Kind::Mint {
                    m.outputs.iter_mut().for_each(prep_script_output);
                    each_tx!(&mut x.it, t => { t.prepare_init_script(); }, mint _t => ());
                }
                edit(x, m);
                "prepare script"
            }
            12 => {
                let x = &mut copies[at];
                let mut m = x.m.clone();
                if m.kind != Kind::Mint {
                    m.outputs.iter_mut().for_each(clear_output_malleable);
                    m.inputs.iter_mut().for_each(clear_input_malleable);
                    each_tx!(&mut x.it, t => { t.prepare_init_predicate(); }, mint _t => ());
                }
                edit(x, m);
                "prepare predicate"
            }
            13 => {
                let mut m = copies[at].m.clone();
                if m.kind != Kind::Mint {
                    execute_fill(c, &s, &mut m, 8);
                }
                let x = &mut copies[at];
                assign(&mut x.it, &m);
                edit(x, m);
                "execute"
            }
            _ => {
                let k = key(c.below(KEYS));
                let x = &mut copies[at];
                if x.stale {
                    "nothing"
                } else {
                    each_tx!(&mut x.it, t => t.sign_inputs(&k.0), mint _t => ());
                    let m = x.it.snap().unwrap();
                    edit(x, m);
                    "sign"
                }
            }
        };
        c.log(|| format!("copy {at}: {label}"));
        c.note(copies[at].stale as u64 * 2 + copies[at].it.is_computed() as u64);
        // no other copy was touched
        for (i, x) in copies.iter().enumerate() {
            if i != at {
                ensure!(
                    x.it.strict() == others[i].0 && x.it.is_computed() == others[i].1,
                    "shared",
                    "{label} on copy {at} changed copy {i}"
                );
            }
            if !x.stale {
                c.nontrivial = true;
                compare_answers(&x.it, &x.m, label)?;
            } else {
                c.count("stale_copies_skipped");
            }
        }
        if let Some(x) = added {
            if copies.len() < 4 {
                copies.push(x);
            } else {
                let i = c.below(copies.len());
                copies[i] = x;
            }
        }
    }
    // everything is precomputed again in the end
    for x in copies.iter_mut() {
        x.it.precompute();
        compare_answers(&x.it, &x.m, "final precompute")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
type Put = Box<dyn Fn(&mut M, &[u8])>;
struct Spot {
    what: &'static str,
    i: usize,
    off: usize,
    len: usize,
    put: Put,
}
fn w8(b: &[u8]) -> u64 {
    u64::from_be_bytes(b[..8].try_into().unwrap())
}
fn b32(b: &[u8]) -> B32 {
    b[..32].try_into().unwrap()
}
fn ptr_of(b: &[u8]) -> TxPointer {
    TxPointer::new(w8(b) as u32, w8(&b[8..]) as u16)
}
/// All positions the library advertises for this transaction, with the meaning each has.
fn spots(it: &Item) -> R<Vec<Spot>> {
    let mut v: Vec<Spot> = vec![];
    fn add(v: &mut Vec<Spot>, what: &'static str, i: usize, off: usize, len: usize, put: impl Fn(&mut M, &[u8]) + 'static) {
        v.push(Spot { what, i, off, len, put: Box::new(put) });
    }
    fn inputs(v: &mut Vec<Spot>, ins: &[Input], at: &dyn Fn(usize) -> Option<usize>, pred: &dyn Fn(usize) -> Option<(usize, usize)>) -> R {
        for (i, x) in ins.iter().enumerate() {
            let Some(base) = at(i) else { return viol("position-none", format!("no position for input {i} of {}", ins.len())) };
            let r = InputRepr::from(x);
            let mut opt = |what: &'static str, o: Option<usize>, len: usize, has: bool, put: Put| -> R {
                ensure!(o.is_some() == has, "position-field", "input {i} {x:?}: position of {what} is {o:?}");
                if let Some(o) = o {
                    v.push(Spot { what, i, off: base + o, len, put });
                }
                Ok(())
            };
            let coin = x.is_coin();
            let contract = x.is_contract();
            let message = x.is_message();
            opt("input utxo id", r.utxo_id_offset(), 40, coin || contract, Box::new(move |m, b| {
                let n = UtxoId::new(b32(b).into(), w8(&b[32..]) as u8);
                if let Input::CoinSigned { utxo_id, .. } | Input::CoinPredicate { utxo_id, .. } | Input::Contract { utxo_id, .. } = &mut m.inputs[i] {
                    *utxo_id = n
                }
            }))?;
            opt("input owner", r.owner_offset(), 32, coin, Box::new(move |m, b| {
                if let Input::CoinSigned { owner, .. } | Input::CoinPredicate { owner, .. } = &mut m.inputs[i] {
                    *owner = b32(b).into()
                }
            }))?;
            opt("input asset id", r.asset_id_offset(), 32, coin, Box::new(move |m, b| {
                if let Input::CoinSigned { asset_id, .. } | Input::CoinPredicate { asset_id, .. } = &mut m.inputs[i] {
                    *asset_id = b32(b).into()
                }
            }))?;
            opt("input tx pointer", r.tx_pointer_offset(), 16, coin || contract, Box::new(move |m, b| {
                if let Input::CoinSigned { tx_pointer, .. } | Input::CoinPredicate { tx_pointer, .. } | Input::Contract { tx_pointer, .. } = &mut m.inputs[i] {
                    *tx_pointer = ptr_of(b)
                }
            }))?;
            opt("input balance root", r.contract_balance_root_offset(), 32, contract, Box::new(move |m, b| {
                if let Input::Contract { balance_root, .. } = &mut m.inputs[i] {
                    *balance_root = b32(b).into()
                }
            }))?;
            opt("input state root", r.contract_state_root_offset(), 32, contract, Box::new(move |m, b| {
                if let Input::Contract { state_root, .. } = &mut m.inputs[i] {
                    *state_root = b32(b).into()
                }
            }))?;
            opt("input contract id", r.contract_id_offset(), 32, contract, Box::new(move |m, b| {
                if let Input::Contract { contract_id, .. } = &mut m.inputs[i] {
                    *contract_id = b32(b).into()
                }
            }))?;
            opt("input message id", r.message_id_offset(), 32, message, Box::new(move |m, b| {
                if let Input::MessageSigned { message_id, .. } | Input::MessagePredicate { message_id, .. } = &mut m.inputs[i] {
                    *message_id = b32(b).into()
                }
            }))?;
            opt("input sender", r.message_sender_offset(), 32, message, Box::new(move |m, b| {
                if let Input::MessageSigned { sender, .. } | Input::MessagePredicate { sender, .. } = &mut m.inputs[i] {
                    *sender = b32(b).into()
                }
            }))?;
            opt("input recipient", r.message_recipient_offset(), 32, message, Box::new(move |m, b| {
                if let Input::MessageSigned { recipient, .. } | Input::MessagePredicate { recipient, .. } = &mut m.inputs[i] {
                    *recipient = b32(b).into()
                }
            }))?;
            let dlen = x.input_data().map_or(0, |d| d.len());
            opt("input data", r.data_offset(), dlen, message, Box::new(move |m, b| {
                if let Input::MessageSigned { data, .. } | Input::MessagePredicate { data, .. } = &mut m.inputs[i] {
                    *data = b.to_vec()
                }
            }))?;
            if message {
                ensure!(r.data_offset() == Some(Input::message_data_offset()), "position-static", "data position of a message: {:?} and {}", r.data_offset(), Input::message_data_offset());
            }
            if coin {
                ensure!(r.coin_predicate_offset() == Some(Input::coin_predicate_offset()), "position-static", "predicate position of a coin: {:?} and {}", r.coin_predicate_offset(), Input::coin_predicate_offset());
            } else {
                ensure!(r.coin_predicate_offset().is_none(), "position-field", "a {r:?} has a coin predicate position");
            }
            let has = x.is_coin_predicate() || x.is_message_predicate();
            let (pl, dl) = (x.input_predicate().map_or(0, |p| p.len()), x.input_predicate_data().map_or(0, |p| p.len()));
            let none = if contract { None } else { Some(0) };
            ensure!(x.predicate_len() == if has { Some(pl) } else { none }, "position-length", "predicate of {pl} bytes has length {:?}: {x:?}", x.predicate_len());
            ensure!(x.predicate_data_len() == if has { Some(dl) } else { none }, "position-length", "predicate data of {dl} bytes has length {:?}: {x:?}", x.predicate_data_len());
            if coin && has {
                ensure!(x.predicate_offset() == r.coin_predicate_offset(), "position-static", "predicate position of a coin: {:?} and {:?}", x.predicate_offset(), r.coin_predicate_offset());
            }
            opt("input predicate", x.predicate_offset(), pl, has, Box::new(move |m, b| {
                if let Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } = &mut m.inputs[i] {
                    *predicate = b.to_vec()
                }
            }))?;
            opt("input predicate data", x.predicate_data_offset(), dl, has, Box::new(move |m, b| {
                if let Input::CoinPredicate { predicate_data, .. } | Input::MessagePredicate { predicate_data, .. } = &mut m.inputs[i] {
                    *predicate_data = b.to_vec()
                }
            }))?;
            match pred(i) {
                Some((o, n)) => {
                    ensure!(has && n == padded(pl), "position-length", "predicate of input {i} ({pl} bytes) is reported with length {n}: {x:?}");
                    add(v, "predicate of input", i, o, pl, move |m, b| {
                        if let Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } = &mut m.inputs[i] {
                            *predicate = b.to_vec()
                        }
                    });
                }
                None => ensure!(!has, "position-none", "no predicate position for input {i}: {x:?}"),
            }
        }
        Ok(())
    }
    fn outputs(v: &mut Vec<Spot>, outs: &[Output], at: &dyn Fn(usize) -> Option<usize>) -> R {
        for (i, x) in outs.iter().enumerate() {
            let Some(base) = at(i) else { return viol("position-none", format!("no position for output {i} of {}", outs.len())) };
            let r = OutputRepr::from(x);
            let mut opt = |what: &'static str, o: Option<usize>, len: usize, has: bool, put: Put| -> R {
                ensure!(o.is_some() == has, "position-field", "output {i} {x:?}: position of {what} is {o:?}");
                if let Some(o) = o {
                    v.push(Spot { what, i, off: base + o, len, put });
                }
                Ok(())
            };
            let ccv = matches!(x, Output::Coin { .. } | Output::Change { .. } | Output::Variable { .. });
            opt("output to", r.to_offset(), 32, ccv, Box::new(move |m, b| {
                if let Output::Coin { to, .. } | Output::Change { to, .. } | Output::Variable { to, .. } = &mut m.outputs[i] {
                    *to = b32(b).into()
                }
            }))?;
            opt("output asset id", r.asset_id_offset(), 32, ccv, Box::new(move |m, b| {
                if let Output::Coin { asset_id, .. } | Output::Change { asset_id, .. } | Output::Variable { asset_id, .. } = &mut m.outputs[i] {
                    *asset_id = b32(b).into()
                }
            }))?;
            opt("output balance root", r.contract_balance_root_offset(), 32, x.is_contract(), Box::new(move |m, b| {
                if let Output::Contract { balance_root, .. } = &mut m.outputs[i] {
                    *balance_root = b32(b).into()
                }
            }))?;
            opt("output state root", r.contract_state_root_offset(), 32, x.is_contract(), Box::new(move |m, b| {
                if let Output::Contract { state_root, .. } = &mut m.outputs[i] {
                    *state_root = b32(b).into()
                }
            }))?;
            opt("output created state root", r.contract_created_state_root_offset(), 32, x.is_contract_created(), Box::new(move |m, b| {
                if let Output::ContractCreated { state_root, .. } = &mut m.outputs[i] {
                    *state_root = b32(b).into()
                }
            }))?;
            opt("output contract id", r.contract_id_offset(), 32, x.is_contract_created(), Box::new(move |m, b| {
                if let Output::ContractCreated { contract_id, .. } = &mut m.outputs[i] {
                    *contract_id = b32(b).into()
                }
            }))?;
            opt("output recipient", r.recipient_offset(), 32, x.is_message(), Box::new(move |m, b| {
                if let Output::Message { recipient, .. } = &mut m.outputs[i] {
                    *recipient = b32(b).into()
                }
            }))?;
        }
        Ok(())
    }
    fn witnesses(v: &mut Vec<Spot>, ws: &[Witness], at: &dyn Fn(usize) -> Option<usize>) -> R {
        for (i, x) in ws.iter().enumerate() {
            let Some(base) = at(i) else { return viol("position-none", format!("no position for witness {i} of {}", ws.len())) };
            add(v, "witness", i, base + 8, x.as_ref().len(), move |m, b| m.witnesses[i] = b.to_vec());
        }
        Ok(())
    }
    match it {
        Item::Script(t) | Item::Tx(Transaction::Script(t)) => {
            add(&mut v, "gas price", 0, t.gas_price_offset(), 8, |m, b| m.gas_price = w8(b));
            add(&mut v, "gas limit", 0, t.gas_limit_offset(), 8, |m, b| m.gas_limit = w8(b));
            add(&mut v, "maturity", 0, t.maturity_offset(), 8, |m, b| m.maturity = w8(b));
            add(&mut v, "gas price", 1, Script::gas_price_offset_static(), 8, |m, b| m.gas_price = w8(b));
            add(&mut v, "gas limit", 1, Script::gas_limit_offset_static(), 8, |m, b| m.gas_limit = w8(b));
            add(&mut v, "maturity", 1, Script::maturity_offset_static(), 8, |m, b| m.maturity = w8(b));
            add(&mut v, "receipts root", 0, t.receipts_root_offset(), 32, |m, b| m.receipts_root = b32(b));
            add(&mut v, "receipts root", 1, Script::receipts_root_offset_static(), 32, |m, b| m.receipts_root = b32(b));
            add(&mut v, "script", 0, t.script_offset(), t.script().len(), |m, b| m.script = b.to_vec());
            add(&mut v, "script", 1, Script::script_offset_static(), t.script().len(), |m, b| m.script = b.to_vec());
            add(&mut v, "script data", 0, t.script_data_offset(), t.script_data().len(), |m, b| m.data = b.to_vec());
            inputs(&mut v, t.inputs(), &|i| t.inputs_offset_at(i), &|i| t.inputs_predicate_offset_at(i))?;
            outputs(&mut v, t.outputs(), &|i| t.outputs_offset_at(i))?;
            witnesses(&mut v, t.witnesses(), &|i| t.witnesses_offset_at(i))?;
        }
        Item::Create(t) | Item::Tx(Transaction::Create(t)) => {
            add(&mut v, "gas price", 0, t.gas_price_offset(), 8, |m, b| m.gas_price = w8(b));
            add(&mut v, "gas limit", 0, t.gas_limit_offset(), 8, |m, b| m.gas_limit = w8(b));
            add(&mut v, "maturity", 0, t.maturity_offset(), 8, |m, b| m.maturity = w8(b));
            add(&mut v, "gas price", 1, Create::gas_price_offset_static(), 8, |m, b| m.gas_price = w8(b));
            add(&mut v, "gas limit", 1, Create::gas_limit_offset_static(), 8, |m, b| m.gas_limit = w8(b));
            add(&mut v, "maturity", 1, Create::maturity_offset_static(), 8, |m, b| m.maturity = w8(b));
            add(&mut v, "bytecode length", 0, t.bytecode_length_offset(), 8, |m, b| m.bytecode_length = w8(b));
            add(&mut v, "bytecode witness index", 0, t.bytecode_witness_index_offset(), 8, |m, b| {
                m.bytecode_witness_index = w8(b) as u8
            });
            add(&mut v, "salt", 0, t.salt_offset(), 32, |m, b| m.salt = b32(b));
            add(&mut v, "bytecode length", 1, Create::bytecode_length_offset_static(), 8, |m, b| m.bytecode_length = w8(b));
            add(&mut v, "bytecode witness index", 1, Create::bytecode_witness_index_offset_static(), 8, |m, b| {
                m.bytecode_witness_index = w8(b) as u8
            });
            add(&mut v, "salt", 1, Create::salt_offset_static(), 32, |m, b| m.salt = b32(b));
            let first = Create::storage_slots_offset_static();
            if !t.storage_slots().is_empty() {
                add(&mut v, "storage slot", 0, first, 64, |m, b| m.slots[0] = (b32(b), b32(&b[32..])));
            }
            for i in 0..t.storage_slots().len() {
                let Some(o) = t.storage_slots_offset_at(i) else {
                    return viol("position-none", format!("no position for storage slot {i} of {}", t.storage_slots().len()));
                };
                add(&mut v, "storage slot", i, o, 64, move |m, b| m.slots[i] = (b32(b), b32(&b[32..])));
            }
            inputs(&mut v, t.inputs(), &|i| t.inputs_offset_at(i), &|i| t.inputs_predicate_offset_at(i))?;
            outputs(&mut v, t.outputs(), &|i| t.outputs_offset_at(i))?;
            witnesses(&mut v, t.witnesses(), &|i| t.witnesses_offset_at(i))?;
        }
        Item::Mint(t) | Item::Tx(Transaction::Mint(t)) => {
            add(&mut v, "tx pointer", 0, t.tx_pointer_offset(), 16, |m, b| {
                let p = ptr_of(b);
                m.tx_pointer = (p.block_height(), p.tx_index());
            });
            add(&mut v, "tx pointer", 1, Mint::tx_pointer_static(), 16, |m, b| {
                let p = ptr_of(b);
                m.tx_pointer = (p.block_height(), p.tx_index());
            });
            outputs(&mut v, t.outputs(), &|i| t.outputs_offset_at(i))?;
        }
        _ => {}
    }
    Ok(v)
}

fn c08_positions(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut m = any_tx(c, &s);
    c.note(shape(&m));
    let mut it = item_of(c, &m);
    c.log(|| describe(&m));
    compare_answers(&it, &m, "fresh")?;
    if c.chance(1, 2) {
        it.precompute();
        compare_answers(&it, &m, "precomputed")?;
    }
    let ty = it.ty();
    // a memory image: the transaction sits among stale bytes
    let p = ConsensusParameters::DEFAULT.with_max_inputs(c.draw(4));
    let base = p.tx_offset();
    let bytes = it.to_bytes();
    let mut mem = vec![0u8; base + bytes.len() + 64];
    c.fill(&mut mem);
    let stale = mem.clone();
    mem[base..base + bytes.len()].copy_from_slice(&bytes);
    let durable = bytes.clone();
    let steps = 1 + c.below(8);
    for _ in 0..steps {
        c.mark();
        c.tick(1);
        let sp = spots(&it)?;
        // executors mostly look at the later, derived positions
        let k = if c.chance(1, 3) { sp.len() - 1 - c.below(sp.len().min(6)) } else { c.below(sp.len()) };
        let x = &sp[k];
        c.note(hash_bytes(x.what.as_bytes()));
        let end = base + x.off + x.len;
        ensure!(end <= base + bytes.len(), "position-outside", "{} {} at {}+{} lies outside the encoding of {} bytes: {}", x.what, x.i, x.off, x.len, bytes.len(), describe(&m));
        // read: writing back what is there must be the identity
        {
            let mut m2 = m.clone();
            (x.put)(&mut m2, &mem[base + x.off..end]);
            ensure!(
                strict(&m2) == strict(&m),
                format!("position-read:{}", x.what),
                "the bytes at the advertised position {} (length {}) are not {} {}: {}",
                x.off,
                x.len,
                x.what,
                x.i,
                describe(&m)
            );
        }
        let mut new = vec![0u8; x.len];
        c.fill(&mut new);
        match x.len {
            16 if x.what.contains("pointer") => {
                let q = ptr(c);
                new[..8].copy_from_slice(&(q.block_height() as u64).to_be_bytes());
                new[8..].copy_from_slice(&(q.tx_index() as u64).to_be_bytes());
            }
            40 => new[32..39].iter_mut().for_each(|b| *b = 0),
            8 if x.what.contains("index") => new[..7].iter_mut().for_each(|b| *b = 0),
            _ => {}
        }
        c.nontrivial = true;
        c.log(|| format!("patch {} {} at {}+{}", x.what, x.i, x.off, x.len));
        mem[base + x.off..end].copy_from_slice(&new);
        (x.put)(&mut m, &new);
        if c.chance(1, 6) {
            // crash: the image is lost and loaded again
            c.count("fault.crash");
            mem[base..base + bytes.len()].copy_from_slice(&durable);
            m = dec_tx(&durable).map(|x| x.0).or_else(|_| viol("HARNESS", "model cannot read its own encoding"))?;
            it = Item::from_bytes(ty, &durable).or_else(|e| viol("reload", format!("own encoding refused: {e:?}")))?;
            if c.chance(1, 2) {
                it.precompute();
            }
            continue;
        }
        let image = &mem[base..base + bytes.len()];
        let what = x.what;
        let got = Item::from_bytes(ty, image).or_else(|e| viol("patched-refused", format!("encoding refused after patching {what} at its advertised position: {e:?}")))?;
        ensure!(
            strict(&got.snap().unwrap()) == strict(&m),
            format!("position-patch:{what}"),
            "patching {} {} at its advertised position {} changed something else: {}",
            what,
            x.i,
            x.off,
            describe(&m)
        );
        // continue on the decoded value; positions do not move, so the old cache may stay
        if c.chance(1, 2) {
            it = got;
            if c.chance(1, 2) {
                it.precompute();
            }
        }
    }
    ensure!(mem[..base] == stale[..base], "HARNESS", "memory outside was touched");
    Ok(())
}

// ------------------------------------------------------------------ C16
fn c16_prepare(c: &mut Ctx) -> R {
    let s = swarm(c);
    let p = ConsensusParameters::DEFAULT;
    let k = *c.pick(&[Kind::Script, Kind::Create]);
    let mut m = if c.chance(1, 2) {
        let mut m = valid_tx(c, &s, &p, 7, k);
        if c.chance(2, 3) {
            sign_model(&mut m);
        }
        m
    } else {
        any_tx_kind(c, &s, k)
    };
    if c.chance(1, 2) {
        execute_fill(c, &s, &mut m, 9);
    }
    c.note(shape(&m));
    c.log(|| describe(&m));
    let txid = id(&m);
    let sigs = m.inputs.len() <= 4 && c.chance(1, 2);
    let mut it = item_of(c, &m);
    if c.chance(1, 3) {
        it.precompute();
    }
    let auth = |it: &Item| -> Result<(), CheckError> {
        match it {
            Item::Tx(t) => t.check_signatures(),
            Item::Script(t) => t.check_signatures(),
            Item::Create(t) => t.check_signatures(),
            _ => Ok(()),
        }
    };
    let auth0 = if sigs { Some(auth(&it)) } else { None };
    // the store keeps what was submitted
    let kc = *c.pick(&CODECS);
    let stored = ser(&mut it, kc)?;
    let ty = it.ty();
    let mut firsts: BTreeMap<&'static str, Vec<u8>> = BTreeMap::new();
    let mut from_store = true;
    let attempts = 1 + c.below(4);
    for a in 0..attempts {
        c.mark();
        c.tick(10);
        let script = c.chance(1, 2);
        let mode = if script { "script" } else { "predicate" };
        let expect = |m: &M| -> M {
            let mut w = m.clone();
            if script {
                w.outputs.iter_mut().for_each(prep_script_output);
            } else {
                w.outputs.iter_mut().for_each(clear_output_malleable);
                w.inputs.iter_mut().for_each(clear_input_malleable);
            }
            w
        };
        let want = expect(&m);
        let by_element = c.chance(1, 5);
        let prep = |it: &mut Item| {
            each_tx!(it, t => {
                if by_element {
                    if script {
                        t.outputs_mut().iter_mut().for_each(|o| o.prepare_init_script());
                    } else {
                        t.inputs_mut().iter_mut().for_each(|o| o.prepare_init_predicate());
                        t.outputs_mut().iter_mut().for_each(|o| o.prepare_init_predicate());
                    }
                } else if script {
                    t.prepare_init_script();
                } else {
                    t.prepare_init_predicate();
                }
            }, mint _t => ())
        };
        prep(&mut it);
        c.nontrivial = true;
        c.note(script as u64 + 2 * a as u64);
        c.log(|| format!("attempt {a}: prepare for {mode}"));
        let got = it.snap().unwrap();
        if strict(&got) != strict(&want) {
            let at = enc_bytes(&got).iter().zip(&enc_bytes(&want)).position(|(a, b)| a != b);
            let f = at.and_then(|at| enc(&want).f.iter().find(|f| f.off <= at && at < f.off + f.len).map(|f| (f.k, f.i)));
            return viol(
                "prepared",
                format!("{mode} preparation left or changed the wrong fields (first difference at {f:?}): {} from {}", describe(&got), describe(&m)),
            );
        }
        let n = each_tx!(&it, t => t.serialized_size(), mint t => t.serialized_size());
        ensure!(n == enc_bytes(&want).len(), "prepared-size", "size after {mode} preparation is {n}");
        ensure!(it.id() == Some(txid), "prepared-id", "{mode} preparation changed the id: {}", describe(&m));
        if let Some(a0) = &auth0 {
            let a1 = auth(&it);
            ensure!(&a1 == a0, "prepared-signatures", "signatures were {a0:?}, after {mode} preparation {a1:?}: {}", describe(&m));
        }
        // idempotent
        let b1 = it.to_bytes();
        if c.chance(1, 2) {
            prep(&mut it);
            ensure!(it.to_bytes() == b1, "prepared-twice", "{mode} preparation is not idempotent: {}", describe(&m));
        }
        // every attempt on the stored transaction starts from the same bytes
        if from_store {
            let b0 = firsts.entry(mode).or_insert_with(|| b1.clone());
            ensure!(*b0 == b1, "retry", "attempt {a} starts {mode} execution from other bytes than an earlier one: {}", describe(&m));
        }
        // execution fills in results ...
        let mut x = it.snap().unwrap();
        execute_fill(c, &s, &mut x, 8);
        assign(&mut it, &x);
        if c.chance(1, 2) {
            // ... and the node crashes: it starts again from its store
            c.count("fault.crash");
            c.log(|| "crash; restart from the store".into());
            it = de(ty, kc, &stored).or_else(|e| viol("restart-refused", format!("{kc:?} form refused: {e}")))?;
            from_store = true;
            if c.chance(1, 2) {
                it.precompute();
            }
        } else {
            // ... and another attempt follows on the same value
            c.count("retried_in_place");
            from_store = false;
        }
        m = it.snap().unwrap();
    }
    Ok(())
}
