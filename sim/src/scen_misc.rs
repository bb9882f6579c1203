//! C15, C18, C19: persistence, builder sessions, contract identity.
use crate::core::*;
use crate::gen::*;
use crate::item::*;
use crate::model::*;
use crate::node::{self, Form, Kd, Val, FORMS, KDS};
use crate::scen_id::*;
use crate::scen_valid::{expect, into_ck, Path};
use crate::Scenario;
use fuel_tx::field::{Salt as _, StorageSlots as _};
use fuel_tx::*;
use std::collections::BTreeMap;
use std::io;

pub fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario {
            id: "C15",
            f: c15_store,
            quick: 250_000,
            what: "nodes keep transactions, parts, receipts, contracts and parameter sets in an append-only store in JSON, pretty JSON, Transaction::to_json and bincode form, written and read through streams with short reads, interrupts and full disks; crashes tear the tail, restarts recover, records are superseded, moved between forms and rewritten by other tools, parameter records lose settings",
            real: "serde Serialize and Deserialize of all types, Transaction::to_json and from_json, precompute, id, canonical encoder",
            stub: "disk, streams and clock (simulated), value model (independent encoder)",
        },
        Scenario {
            id: "C18",
            f: c18_builder,
            quick: 180_000,
            what: "several builder sessions advance in seeded interleaving through seeded call orders, are copied, abandoned and finished in every way; every view and result is compared with a transaction assembled by hand from the same calls",
            real: "TransactionBuilder, add_unsigned_*, sign_inputs, precompute, id, into_checked",
            stub: "wallets (simulated), hand-assembled model (independent)",
        },
        Scenario {
            id: "C19",
            f: c19_contract,
            quick: 80_000,
            what: "a deployer announces code, salt and storage entries over a lossy, duplicating, reordering network until everyone has them; deployer, relayer and executor derive identities from what arrived in the order it arrived, also from the deployment transaction relayed in any codec and after restarts; a tampering party changes one thing",
            real: "Contract::{root, root_from_code, initial_state_root, default_state_root, id}, TryFrom<&Create>, TryFrom<&Transaction>, codecs",
            stub: "network and stores (simulated), Merkle and hash definitions (independent)",
        },
    ]
}

// ------------------------------------------------------------------ values
pub fn val_of(it: Item) -> Val {
    match it {
        Item::Tx(x) => Val::Tx(x),
        Item::Script(x) => Val::Script(x),
        Item::Create(x) => Val::Create(x),
        Item::Mint(x) => Val::Mint(x),
        Item::Input(x) => Val::Input(x),
        Item::Output(x) => Val::Output(x),
        Item::Witness(x) => Val::Witness(x),
        Item::Slot(x) => Val::Slot(x),
        Item::Utxo(x) => Val::Utxo(x),
        Item::Ptr(x) => Val::Ptr(x),
        Item::Receipt(x) => Val::Receipt(x),
    }
}
pub fn item_val(v: &Val) -> Option<Item> {
    Some(match v {
        Val::Tx(x) => Item::Tx(x.clone()),
        Val::Script(x) => Item::Script(x.clone()),
        Val::Create(x) => Item::Create(x.clone()),
        Val::Mint(x) => Item::Mint(x.clone()),
        Val::Input(x) => Item::Input(x.clone()),
        Val::Output(x) => Item::Output(*x),
        Val::Witness(x) => Item::Witness(x.clone()),
        Val::Slot(x) => Item::Slot(x.clone()),
        Val::Utxo(x) => Item::Utxo(*x),
        Val::Ptr(x) => Item::Ptr(*x),
        Val::Receipt(x) => Item::Receipt(x.clone()),
        _ => return None,
    })
}
pub fn any_params(c: &mut Ctx) -> ConsensusParameters {
    if c.chance(1, 2) {
        return params(c);
    }
    ConsensusParameters {
        contract_max_size: word(c),
        max_inputs: word(c),
        max_outputs: word(c),
        max_witnesses: word(c),
        max_gas_per_tx: word(c),
        max_script_length: word(c),
        max_script_data_length: word(c),
        max_storage_slots: word(c),
        max_predicate_length: word(c),
        max_predicate_data_length: word(c),
        gas_price_factor: word(c).max(1),
        gas_per_byte: word(c),
        max_message_data_length: word(c),
    }
}
pub fn any_error(c: &mut Ctx, s: &Swarm) -> CheckError {
    for _ in 0..4 {
        let p = params(c);
        let k = kind(c);
        let mut m = valid_tx(c, s, &p, 5, k);
        for _ in 0..3 {
            rule_mutation(c, s, &mut m, &p, 5);
        }
        let mut e = broken_rules(&m, 5, &p);
        if let Bal::Refused(x) = balances(&m, &p) {
            e.extend(x);
        }
        if !e.is_empty() {
            return c.pick(&e).clone();
        }
    }
    CheckError::ArithmeticOverflow
}
pub fn any_val(c: &mut Ctx, s: &Swarm, kd: Kd) -> Val {
    let ty = match kd {
        Kd::Tx => Ty::Tx,
        Kd::Script => Ty::Script,
        Kd::Create => Ty::Create,
        Kd::Mint => Ty::Mint,
        Kd::Input => Ty::Input,
        Kd::Output => Ty::Output,
        Kd::Witness => Ty::Witness,
        Kd::Slot => Ty::Slot,
        Kd::Utxo => Ty::Utxo,
        Kd::Ptr => Ty::Ptr,
        Kd::Receipt => Ty::Receipt,
        Kd::Params => return Val::Params(any_params(c)),
        Kd::Contract => {
            let mut b = blob(c, s);
            return Val::Contract(match c.below(3) {
                0 => Contract::from(b),
                1 => Contract::from(&mut b[..]),
                _ => {
                    let mut k = Contract::from(&b[..]);
                    for x in k.as_mut() {
                        *x ^= 1;
                    }
                    k
                }
            });
        }
        Kd::Fee => return Val::Fee(TransactionFee::new(word(c), word(c), word(c), word(c))),
        Kd::Error => return Val::Error(any_error(c, s)),
    };
    val_of(item(c, s, ty))
}
pub fn any_kd(c: &mut Ctx) -> Kd {
    if c.chance(1, 2) {
        *c.pick(&[Kd::Tx, Kd::Script, Kd::Create, Kd::Mint, Kd::Receipt, Kd::Params])
    } else {
        *c.pick(&KDS)
    }
}
/// Same value by every measure the library and the model offer.
pub fn same_val(got: &Val, want: &Val, when: &str) -> R {
    let brief = |v: &Val| item_val(v).map(|i| i.describe()).unwrap_or_else(|| format!("{v:?}"));
    match (item_val(got), item_val(want)) {
        (Some(mut g), Some(mut w)) => {
            ensure!(g.strict() == w.strict(), "loaded-value", "{when}: {} was loaded as {}", brief(want), brief(got));
            ensure!(got == want, "loaded-unequal", "{when}: the loaded value has the content of {} but does not equal it", brief(want));
            let (a, b) = (g.to_bytes(), w.model().b);
            ensure!(a == b, "loaded-encoding", "{when}: canonical encoding of the loaded {} differs", brief(want));
            if let (Some(m), Some(i)) = (w.snap(), g.id()) {
                ensure!(i == id(&m), "loaded-id", "{when}: the loaded transaction reports id {}, its content has {}: {}", hex(&i), hex(&id(&m)), brief(want));
            }
            if let Val::Receipt(g) = got {
                if let Val::Receipt(w) = want {
                    ensure!(g.contract_id() == w.contract_id(), "loaded-receipt", "{when}: contract of the panic {:?} was loaded as {:?}", w.contract_id(), g.contract_id());
                }
            }
            let _ = &mut w;
        }
        _ => match (got, want) {
            // equality of these is derived; compare what is observable as well
            (Val::Params(g), Val::Params(w)) => ensure!(param_list(g) == param_list(w) && g == w, "loaded-value", "{when}: {w:?} was loaded as {g:?}"),
            (Val::Contract(g), Val::Contract(w)) => ensure!(g.as_ref() == w.as_ref() && g.root() == w.root(), "loaded-value", "{when}: contract code {:?} was loaded as {:?}", w, g),
            (Val::Fee(g), Val::Fee(w)) => {
                let l = |f: &TransactionFee| (TransactionFee::min(f), f.total(), f.min_gas(), f.max_gas());
                ensure!(l(g) == l(w) && g == w, "loaded-value", "{when}: {w:?} was loaded as {g:?}")
            }
            (g, w) => ensure!(g == w && format!("{g:?}") == format!("{w:?}"), "loaded-value", "{when}: {w:?} was loaded as {g:?}"),
        },
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
/// Published names and defaults of the settings.
const SETTINGS: [(&str, u64); 13] = [
    ("contract_max_size", 16 * 1024 * 1024),
    ("max_inputs", 255),
    ("max_outputs", 255),
    ("max_witnesses", 255),
    ("max_gas_per_tx", 100_000_000),
    ("max_script_length", 1024 * 1024),
    ("max_script_data_length", 1024 * 1024),
    ("max_storage_slots", 255),
    ("max_predicate_length", 1024 * 1024),
    ("max_predicate_data_length", 1024 * 1024),
    ("gas_price_factor", 1_000_000_000),
    ("gas_per_byte", 4),
    ("max_message_data_length", 1024 * 1024),
];
pub fn param_list(p: &ConsensusParameters) -> [u64; 13] {
    [
        p.contract_max_size,
        p.max_inputs,
        p.max_outputs,
        p.max_witnesses,
        p.max_gas_per_tx,
        p.max_script_length,
        p.max_script_data_length,
        p.max_storage_slots,
        p.max_predicate_length,
        p.max_predicate_data_length,
        p.gas_price_factor,
        p.gas_per_byte,
        p.max_message_data_length,
    ]
}

/// A file behind a bad disk: short and interrupted reads and writes, a size limit.
struct Disk<'a> {
    data: Vec<u8>,
    pos: usize,
    plan: Vec<u8>,
    step: usize,
    limit: usize,
    faults: &'a mut [u64; 3],
}
impl Disk<'_> {
    fn turn(&mut self) -> io::Result<usize> {
        let x = self.plan[self.step % self.plan.len()];
        self.step += 1;
        if x == 0 && self.step % self.plan.len() != 0 {
            self.faults[0] += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "signal"));
        }
        Ok(x.max(1) as usize)
    }
}
impl io::Read for Disk<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.turn()?;
        let n = n.min(b.len()).min(self.data.len() - self.pos);
        if n < b.len() {
            self.faults[1] += 1;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::Write for Disk<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.turn()?;
        if self.data.len() >= self.limit {
            self.faults[2] += 1;
            return Err(io::Error::other("no space left"));
        }
        let n = n.min(b.len()).min(self.limit - self.data.len());
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
macro_rules! with_inner {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Val::Tx($x) => $e,
            Val::Script($x) => $e,
            Val::Create($x) => $e,
            Val::Mint($x) => $e,
            Val::Input($x) => $e,
            Val::Output($x) => $e,
            Val::Witness($x) => $e,
            Val::Slot($x) => $e,
            Val::Utxo($x) => $e,
            Val::Ptr($x) => $e,
            Val::Receipt($x) => $e,
            Val::Params($x) => $e,
            Val::Contract($x) => $e,
            Val::Fee($x) => $e,
            Val::Error($x) => $e,
        }
    };
}
fn write_stream(v: &Val, form: Form, d: &mut Disk) -> Result<(), String> {
    with_inner!(v, x => match form {
        Form::Bincode => bincode::serialize_into(d, x).map_err(|e| e.to_string()),
        Form::Pretty => serde_json::to_writer_pretty(d, x).map_err(|e| e.to_string()),
        _ => serde_json::to_writer(d, x).map_err(|e| e.to_string()),
    })
}
fn read_stream(kd: Kd, form: Form, d: &mut Disk) -> Result<Val, String> {
    macro_rules! with {
        ($v:ident) => {
            match form {
                Form::Bincode => bincode::deserialize_from(d).map(Val::$v).map_err(|e| e.to_string()),
                _ => serde_json::from_reader(d).map(Val::$v).map_err(|e| e.to_string()),
            }
        };
    }
    match kd {
        Kd::Tx => with!(Tx),
        Kd::Script => with!(Script),
        Kd::Create => with!(Create),
        Kd::Mint => with!(Mint),
        Kd::Input => with!(Input),
        Kd::Output => with!(Output),
        Kd::Witness => with!(Witness),
        Kd::Slot => with!(Slot),
        Kd::Utxo => with!(Utxo),
        Kd::Ptr => with!(Ptr),
        Kd::Receipt => with!(Receipt),
        Kd::Params => with!(Params),
        Kd::Contract => with!(Contract),
        Kd::Fee => with!(Fee),
        Kd::Error => with!(Error),
    }
}
/// Kinds that can be read from a stream (the identifiers of fuel-types deserialise from borrowed
/// strings only, so records that hold some are read whole).
fn streams(k: Kd) -> bool {
    matches!(k, Kd::Witness | Kd::Ptr | Kd::Params | Kd::Contract | Kd::Fee)
}
struct Rec {
    key: usize,
    kd: Kd,
    form: Form,
    start: usize,
    end: usize,
    val: Val,
}
/// A step of a value's life: edits that leave it a value of its kind.
pub fn revise(c: &mut Ctx, s: &Swarm, v: Val) -> Val {
    let kd = v.kd();
    if c.chance(1, 3) {
        return any_val(c, s, kd);
    }
    let mut it = match item_val(&v) {
        Some(it) => it,
        None => {
            return match v {
                Val::Params(mut p) => {
                    match c.below(3) {
                        0 => p.max_inputs = word(c),
                        1 => p.gas_per_byte = word(c),
                        _ => p.max_message_data_length = word(c),
                    }
                    Val::Params(p)
                }
                _ => any_val(c, s, kd),
            }
        }
    };
    if let Some(mut m) = it.snap() {
        field_edit(c, s, &mut m);
        if c.chance(1, 3) && m.kind != Kind::Mint {
            execute_fill(c, s, &mut m, 8);
        }
        assign(&mut it, &m);
        return val_of(it);
    }
    any_val(c, s, kd)
}

fn c15_store(c: &mut Ctx) -> R {
    if c.chance(1, 5) {
        return c15_params(c);
    }
    let s = swarm(c);
    let mut disk: Vec<u8> = vec![];
    let mut recs: Vec<Rec> = vec![];
    let mut live: BTreeMap<usize, Val> = BTreeMap::new();
    let steps = 2 + c.below(9);
    let forms: Vec<Form> = if c.chance(1, 2) { vec![*c.pick(&FORMS)] } else { FORMS.to_vec() };
    for step in 0..steps {
        c.mark();
        c.tick(1);
        let act = c.below(10);
        match act {
            0..=4 => {
                // a new value, or a revision of one at hand
                let (key, mut v) = if !live.is_empty() && c.chance(1, 3) {
                    let ks: Vec<usize> = live.keys().copied().collect();
                    let k = *c.pick(&ks);
                    (k, revise(c, &s, live[&k].clone()))
                } else {
                    let kd = any_kd(c);
                    (step + 100, any_val(c, &s, kd))
                };
                let form = *c.pick(&forms);
                c.log(|| format!("store {key} in {form:?} form: {}", item_val(&v).map(|i| i.describe()).unwrap_or_else(|| format!("{v:?}"))));
                // a value in use may or may not have its derived data computed
                let plain = store_ok(&v, form)?;
                if let Some(mut it) = item_val(&v) {
                    if it.is_tx() {
                        it.precompute();
                        let vv = val_of(it);
                        ensure!(store_ok(&vv, form)? == plain, "stored-derived", "the {form:?} record of a transaction depends on whether it was precomputed");
                        if c.chance(1, 2) {
                            v = vv;
                        }
                    }
                }
                let b = if form != Form::Own && c.chance(1, 4) {
                    // through a stream
                    let mut f = [0; 3];
                    let plan: Vec<u8> = (0..1 + c.below(5)).map(|_| *c.pick(&[1u8, 0, 3, 8, 255])).collect();
                    let full = c.chance(1, 4);
                    let limit = if full { c.below(plain.len() + 1) } else { usize::MAX };
                    let mut d = Disk { data: vec![], pos: 0, plan, step: 0, limit, faults: &mut f };
                    let r = write_stream(&v, form, &mut d);
                    let data = std::mem::take(&mut d.data);
                    c.count_n("fault.interrupted_io", f[0]);
                    c.count_n("fault.disk_full", f[2]);
                    if limit < plain.len() {
                        ensure!(r.is_err(), "full-disk", "writing a {} byte record to a disk with {limit} bytes left reported success", plain.len());
                        // the writer knows; the tail is thrown away
                        continue;
                    }
                    if let Err(e) = r {
                        return viol("stream-write", format!("{form:?} record refused by the stream: {e}"));
                    }
                    ensure!(data == plain, "stream-write", "{form:?} record written through a stream differs");
                    data
                } else {
                    plain
                };
                let start = disk.len();
                disk.extend_from_slice(&b);
                c.note(mix(v.kd() as u64, form as u64));
                recs.push(Rec { key, kd: v.kd(), form, start, end: disk.len(), val: v.clone() });
                live.insert(key, v);
            }
            5..=7 => {
                // crash: the tail of the log is lost, the last surviving record may be torn
                if recs.is_empty() {
                    continue;
                }
                let torn = c.chance(2, 3);
                if torn {
                    let keep = c.below(recs.len());
                    let (a, b) = (recs[keep].start, recs[keep].end);
                    let k = if c.chance(1, 3) { b - 1 - c.below((b - a).min(4)) } else { a + c.below(b - a) };
                    disk.truncate(k);
                    c.count("fault.crash_torn_write");
                    c.log(|| format!("crash: {k} bytes survive"));
                    let r = &recs[keep];
                    let part = &disk[r.start..];
                    ensure!(
                        node::load(r.kd, r.form, part).is_none(),
                        "torn-accepted",
                        "{} of {} bytes of a {:?} record in {:?} form were accepted",
                        part.len(),
                        r.end - r.start,
                        r.kd,
                        r.form
                    );
                    if streams(r.kd) && r.form != Form::Own {
                        let mut f = [0; 3];
                        let mut d = Disk { data: part.to_vec(), pos: 0, plan: vec![7], step: 0, limit: usize::MAX, faults: &mut f };
                        ensure!(read_stream(r.kd, r.form, &mut d).is_err(), "torn-accepted", "a torn {:?} record in {:?} form was accepted from a stream", r.kd, r.form);
                    }
                    disk.truncate(r.start);
                    recs.truncate(keep);
                } else {
                    c.count("fault.crash");
                }
                live.clear();
                // restart
                c.nontrivial = true;
                for r in &recs {
                    let part = &disk[r.start..r.end];
                    let when = format!("{:?} form after restart", r.form);
                    let v = if streams(r.kd) && r.form != Form::Own && c.chance(1, 4) {
                        let mut f = [0; 3];
                        let plan: Vec<u8> = (0..1 + c.below(5)).map(|_| *c.pick(&[1u8, 0, 3, 8, 255])).collect();
                        let mut d = Disk { data: part.to_vec(), pos: 0, plan, step: 0, limit: usize::MAX, faults: &mut f };
                        let v = read_stream(r.kd, r.form, &mut d);
                        let used = d.pos;
                        c.count_n("fault.interrupted_io", f[0]);
                        c.count_n("fault.short_read", f[1]);
                        match v {
                            Ok(v) => {
                                ensure!(r.form != Form::Bincode || used == part.len(), "stream-consumed", "a {} byte record consumed {used}", part.len());
                                v
                            }
                            Err(e) => return viol("load-refused", format!("{:?} in {:?} form refused from a stream: {e}", r.kd, r.form)),
                        }
                    } else {
                        match node::load(r.kd, r.form, part) {
                            Some(v) => v,
                            None => return viol("load-refused", format!("{:?} stored in {:?} form is refused: {:?}", r.kd, r.form, r.val)),
                        }
                    };
                    same_val(&v, &r.val, &when)?;
                    if let Some(it) = item_val(&v) {
                        ensure!(!it.is_computed(), "loaded-derived", "{when}: a loaded transaction claims to have its derived data computed");
                    }
                    live.insert(r.key, v);
                }
            }
            8 => {
                // another tool rewrites a text record: key order and white space change
                if let Some((_, v)) = live.iter().next_back() {
                    let t = store_ok(v, Form::Json)?;
                    let j: serde_json::Value = match serde_json::from_slice(&t) {
                        Ok(j) => j,
                        Err(e) => return viol("not-json", format!("{:?}: {e}", v.kd())),
                    };
                    let t2 = if c.chance(1, 2) { serde_json::to_vec(&j) } else { serde_json::to_vec_pretty(&j) }.unwrap_or_default();
                    c.count("rewritten_by_other_tool");
                    match node::load(v.kd(), if c.chance(1, 2) { Form::Json } else { Form::Own }, &t2) {
                        Some(w) => same_val(&w, v, "record rewritten with other key order and white space")?,
                        None => return viol("load-refused", format!("{:?} rewritten with other key order and white space is refused", v.kd())),
                    }
                }
            }
            _ => {
                // a record moves through all forms
                if let Some((_, v)) = live.iter().next() {
                    let mut w = v.clone();
                    for _ in 0..1 + c.below(3) {
                        let form = *c.pick(&FORMS);
                        let b = store_ok(&w, form)?;
                        w = match node::load(w.kd(), form, &b) {
                            Some(w) => w,
                            None => return viol("load-refused", format!("{:?} stored in {form:?} form is refused", w.kd())),
                        };
                        if c.chance(1, 2) {
                            w = match item_val(&w) {
                                Some(mut it) => {
                                    it.precompute();
                                    val_of(it)
                                }
                                None => w,
                            };
                        }
                    }
                    c.nontrivial = true;
                    same_val(&w, v, "record moved between forms")?;
                }
            }
        }
    }
    Ok(())
}
fn store_ok(v: &Val, form: Form) -> R<Vec<u8>> {
    match node::store(v, form) {
        Some(b) => Ok(b),
        None => viol("store-refused", format!("{:?} form of {v:?} refused", form)),
    }
}
/// Parameter records written by nodes that know or set only some of the settings.
fn c15_params(c: &mut Ctx) -> R {
    let mut p = any_params(c);
    c.nontrivial = true;
    let d = ConsensusParameters::default();
    for (i, (k, v)) in SETTINGS.iter().enumerate() {
        ensure!(param_list(&d)[i] == *v, "defaults", "default {k} is {}, published {v}", param_list(&d)[i]);
    }
    for gen in 0..1 + c.below(4) {
        c.tick(1);
        let form = if c.chance(1, 2) { Form::Json } else { Form::Pretty };
        let t = store_ok(&Val::Params(p), form)?;
        let j: serde_json::Value = match serde_json::from_slice(&t) {
            Ok(j) => j,
            Err(e) => return viol("not-json", format!("parameters: {e}")),
        };
        let Some(o) = j.as_object() else { return viol("not-an-object", format!("parameters are stored as {j}")) };
        // each setting is under its name
        for (i, (k, _)) in SETTINGS.iter().enumerate() {
            ensure!(o.get(*k).and_then(|x| x.as_u64()) == Some(param_list(&p)[i]), "setting-name", "setting {k} = {} is stored as {:?}", param_list(&p)[i], o.get(*k));
        }
        let mask = match c.below(4) {
            0 => 0,
            1 => (1u64 << 13) - 1,
            2 => 1 << c.draw(13),
            _ => c.draw(1 << 13),
        };
        let mut kept = serde_json::Map::new();
        let mut want = param_list(&p);
        for (i, (k, v)) in SETTINGS.iter().enumerate() {
            if mask & (1 << i) != 0 {
                want[i] = *v;
            } else {
                kept.insert(k.to_string(), o[*k].clone());
            }
        }
        if mask != 0 {
            c.count("fault.missing_settings");
        }
        c.note(mask.count_ones() as u64 * 8 + gen as u64);
        let text = if form == Form::Json { serde_json::to_vec(&kept) } else { serde_json::to_vec_pretty(&kept) }.unwrap_or_default();
        if c.chance(1, 3) && text.len() > 1 {
            let k = c.below(text.len());
            c.count("fault.crash_torn_write");
            ensure!(node::load(Kd::Params, form, &text[..k]).is_none(), "torn-accepted", "{k} of {} bytes of a parameter record were accepted", text.len());
        }
        let got = match node::load(Kd::Params, form, &text) {
            Some(Val::Params(g)) => g,
            _ => return viol("load-refused", format!("a parameter record with some settings is refused: {}", String::from_utf8_lossy(&text))),
        };
        for (i, (k, _)) in SETTINGS.iter().enumerate() {
            let m = mask & (1 << i) != 0;
            ensure!(
                param_list(&got)[i] == want[i],
                if m { "missing-setting" } else { "kept-setting" },
                "setting {k} ({}) was loaded as {}, expected {}",
                if m { "missing in the record" } else { "in the record" },
                param_list(&got)[i],
                want[i]
            );
        }
        // the loaded set survives the binary form as well
        let b = store_ok(&Val::Params(got), Form::Bincode)?;
        let k = c.below(b.len());
        ensure!(node::load(Kd::Params, Form::Bincode, &b[..k]).is_none(), "torn-accepted", "{k} of {} bytes of a binary parameter record were accepted", b.len());
        match node::load(Kd::Params, Form::Bincode, &b) {
            Some(v) => same_val(&v, &Val::Params(got), "binary parameter record")?,
            None => return viol("load-refused", "binary parameter record is refused"),
        }
        p = got;
        if c.chance(1, 2) {
            p.max_outputs = word(c);
            p.gas_price_factor = word(c).max(1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
/// One call on a builder.
#[derive(Clone, Debug)]
enum Call {
    Price(u64),
    Limit(u64),
    Maturity(u64),
    PrepScript(bool),
    PrepPredicate(bool),
    Coin { key: usize, utxo: UtxoId, amount: u64, asset: AssetId, ptr: TxPointer, maturity: u64 },
    Message { key: usize, sender: Address, nonce: u64, amount: u64, data: Vec<u8> },
    Input(Input),
    Output(Output),
    Witness(Vec<u8>),
}
#[derive(Clone)]
enum B {
    Script(TransactionBuilder<Script>),
    Create(TransactionBuilder<Create>),
    Mint(TransactionBuilder<Mint>),
}
macro_rules! on {
    ($b:expr, $t:ident => $e:expr, mint $m:ident => $f:expr) => {
        match $b {
            B::Script($t) => $e,
            B::Create($t) => $e,
            B::Mint($m) => $f,
        }
    };
}
/// A session, and what was asked of it.
#[derive(Clone)]
struct Session {
    b: B,
    m: M,
    keys: Vec<usize>,
    prep_script: bool,
    prep_predicate: bool,
    todo: Vec<Call>,
}
fn call(b: &mut B, x: &Call) {
    on!(b, t => { match x.clone() {
        Call::Price(v) => t.gas_price(v),
        Call::Limit(v) => t.gas_limit(v),
        Call::Maturity(v) => t.maturity(v),
        Call::PrepScript(v) => t.prepare_script(v),
        Call::PrepPredicate(v) => t.prepare_predicate(v),
        Call::Coin { key: k, utxo, amount, asset, ptr, maturity } => t.add_unsigned_coin_input(key(k).0, utxo, amount, asset, ptr, maturity),
        Call::Message { key: k, sender, nonce, amount, data } => t.add_unsigned_message_input(key(k).0, sender, nonce, amount, data),
        Call::Input(i) => t.add_input(i),
        Call::Output(o) => t.add_output(o),
        Call::Witness(w) => t.add_witness(w.into()),
    }; }, mint t => if let Call::Output(o) = x { t.add_output(*o); })
}
fn model_call(s: &mut Session, x: &Call) {
    let m = &mut s.m;
    match x.clone() {
        Call::Price(v) => m.gas_price = v,
        Call::Limit(v) => m.gas_limit = v,
        Call::Maturity(v) => m.maturity = v,
        Call::PrepScript(v) => s.prep_script = v,
        Call::PrepPredicate(v) => s.prep_predicate = v,
        Call::Coin { key: k, utxo, amount, asset, ptr, maturity } => {
            m.inputs.push(Input::CoinSigned {
                utxo_id: utxo,
                owner: key(k).2.into(),
                amount,
                asset_id: asset,
                tx_pointer: ptr,
                witness_index: m.witnesses.len() as u8,
                maturity,
            });
            m.witnesses.push(vec![]);
            s.keys.push(k);
        }
        Call::Message { key: k, sender, nonce, amount, data } => {
            let recipient = key(k).2;
            let message_id = sha(&[&sender[..], &recipient, &nonce.to_be_bytes(), &amount.to_be_bytes(), &data]);
            m.inputs.push(Input::MessageSigned {
                message_id: message_id.into(),
                sender,
                recipient: recipient.into(),
                amount,
                nonce,
                witness_index: m.witnesses.len() as u8,
                data,
            });
            m.witnesses.push(vec![]);
            s.keys.push(k);
        }
        Call::Input(i) => m.inputs.push(i),
        Call::Output(o) => m.outputs.push(o),
        Call::Witness(w) => m.witnesses.push(w),
    }
}
/// The calls of a session that describes (roughly) the transaction `m`.
fn plan(c: &mut Ctx, s: &Swarm, m: &M) -> Vec<Call> {
    let mut lists: Vec<Vec<Call>> = vec![vec![], vec![], vec![], vec![]];
    for i in &m.inputs {
        lists[0].push(match i.clone() {
            Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, maturity, .. } => match key_of(&owner) {
                Some(k) => Call::Coin { key: k, utxo: utxo_id, amount, asset: asset_id, ptr: tx_pointer, maturity },
                None => Call::Input(i.clone()),
            },
            Input::MessageSigned { sender, recipient, amount, nonce, data, .. } => match key_of(&recipient) {
                Some(k) => Call::Message { key: k, sender, nonce, amount, data },
                None => Call::Input(i.clone()),
            },
            _ => Call::Input(i.clone()),
        });
    }
    for o in &m.outputs {
        lists[1].push(Call::Output(*o));
    }
    for w in m.witnesses.iter().skip((m.kind == Kind::Create) as usize) {
        if !w.is_empty() {
            lists[2].push(Call::Witness(w.clone()));
        }
    }
    // scalar settings: sometimes set more than once, the last one counts
    for _ in 0..c.below(3) {
        lists[3].push(match c.below(5) {
            0 => Call::Price(word(c)),
            1 => Call::Limit(word(c)),
            2 => Call::Maturity(word(c)),
            3 => Call::PrepScript(c.chance(1, 2)),
            _ => Call::PrepPredicate(c.chance(1, 2)),
        });
    }
    for x in [Call::Price(m.gas_price), Call::Limit(m.gas_limit), Call::Maturity(m.maturity)] {
        if !c.chance(1, 6) {
            lists[3].push(x);
        }
    }
    if c.chance(1, 3) {
        let x = c.chance(1, 2);
        lists[3].push(Call::PrepScript(x));
    }
    if c.chance(1, 3) {
        let x = c.chance(1, 2);
        lists[3].push(Call::PrepPredicate(x));
    }
    // shuffle the settings, then merge the lists in a seeded order
    for i in (1..lists[3].len()).rev() {
        let j = c.below(i + 1);
        lists[3].swap(i, j);
    }
    if c.chance(1, 4) {
        let w = Call::Witness(blob(c, s));
        lists[2].push(w);
    }
    let mut heads = [0usize; 4];
    let mut out = vec![];
    loop {
        let open: Vec<usize> = (0..4).filter(|i| heads[*i] < lists[*i].len()).collect();
        if open.is_empty() {
            break;
        }
        let i = *c.pick(&open);
        out.push(lists[i][heads[i]].clone());
        heads[i] += 1;
    }
    out
}
fn c18_builder(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut p = if c.chance(1, 3) { params(c) } else { ConsensusParameters::DEFAULT };
    if c.chance(1, 3) {
        p.gas_per_byte = 0;
    }
    let h = c.draw(100);
    let mut ss: Vec<Session> = vec![];
    let n = 1 + c.below(3);
    for _ in 0..n {
        c.mark();
        let k = if c.chance(1, 10) { Kind::Mint } else { *c.pick(&[Kind::Script, Kind::Create]) };
        let t = if c.chance(2, 3) { valid_tx(c, &s, &p, h, k) } else { any_tx_kind(c, &s, k) };
        let mut m = M::empty(k);
        let b = match k {
            Kind::Script => {
                m.script = t.script.clone();
                m.data = t.data.clone();
                B::Script(TransactionBuilder::script(t.script.clone(), t.data.clone()))
            }
            Kind::Create => {
                let code = t.witnesses.get(t.bytecode_witness_index as usize).cloned().unwrap_or_default();
                m.salt = t.salt;
                m.slots = t.slots.clone();
                m.bytecode_length = code.len() as u64 / 4;
                m.witnesses.push(code.clone());
                B::Create(TransactionBuilder::create(code.into(), t.salt.into(), t.slots.iter().map(slot).collect()))
            }
            Kind::Mint => {
                m.tx_pointer = t.tx_pointer;
                B::Mint(TransactionBuilder::mint(t.tx_pointer.0, t.tx_pointer.1))
            }
        };
        let mut todo = plan(c, &s, &t);
        if k == Kind::Mint {
            todo.retain(|x| matches!(x, Call::Output(_)));
        }
        todo.reverse();
        ss.push(Session { b, m, keys: vec![], prep_script: k == Kind::Script, prep_predicate: false, todo });
    }
    let mut turns = 0;
    while !ss.is_empty() && turns < 400 {
        turns += 1;
        c.tick(1);
        let i = c.below(ss.len());
        match c.below(40) {
            0 if ss.len() < 6 => {
                // copied mid-session; both go on, the copy in its own order
                c.count("fault.session_forked");
                let mut f = ss[i].clone();
                if c.chance(1, 2) && f.m.kind != Kind::Mint {
                    f.todo.insert(0, Call::Price(word(c)));
                    let w = blob(c, &s);
                    f.todo.push(Call::Witness(w));
                }
                if c.chance(1, 2) {
                    let x = c.below(f.todo.len() + 1);
                    f.todo.truncate(x);
                }
                ss.push(f);
            }
            1 if ss.len() > 1 && c.chance(1, 4) => {
                c.count("fault.session_abandoned");
                ss.remove(i);
            }
            2..=5 => view(&ss[i])?,
            _ => {
                let x = ss[i].todo.pop();
                match x {
                    Some(x) => {
                        c.mark();
                        c.log(|| format!("session {i}: {}", brief(&x)));
                        call(&mut ss[i].b, &x);
                        model_call(&mut ss[i], &x);
                    }
                    None => {
                        let x = ss.remove(i);
                        finish(c, x, h, &p)?;
                    }
                }
            }
        }
    }
    Ok(())
}
fn brief(x: &Call) -> String {
    let mut s = format!("{x:?}");
    s.truncate(s.char_indices().nth(120).map(|x| x.0).unwrap_or(s.len()));
    s
}
fn view(x: &Session) -> R {
    on!(&x.b, t => {
        ensure!(t.inputs() == &x.m.inputs[..], "builder-view", "inputs() shows {:?} after adding {:?}", t.inputs(), x.m.inputs);
        ensure!(t.outputs() == &x.m.outputs[..], "builder-view", "outputs() shows {:?} after adding {:?}", t.outputs(), x.m.outputs);
        let w: Vec<Vec<u8>> = t.witnesses().iter().map(|w| w.as_ref().to_vec()).collect();
        ensure!(w == x.m.witnesses, "builder-view", "witnesses() shows {w:?} after adding {:?}", x.m.witnesses);
        let want: Vec<fuel_crypto::SecretKey> = x.keys.iter().map(|k| key(*k).0).collect();
        ensure!(t.sign_keys() == &want[..], "builder-view", "sign_keys() shows other keys than those given");
    }, mint _t => ());
    Ok(())
}
fn finish(c: &mut Ctx, mut x: Session, h: u64, p: &ConsensusParameters) -> R {
    view(&x)?;
    c.nontrivial = true;
    // the transaction as described, unsigned
    let mut want = x.m.clone();
    if x.prep_predicate {
        want.outputs.iter_mut().for_each(clear_output_malleable);
        want.inputs.iter_mut().for_each(clear_input_malleable);
    }
    if x.prep_script {
        want.outputs.iter_mut().for_each(prep_script_output);
    }
    let txid = id(&want);
    // signatures of the keys given, in the slots of their inputs
    let mut signed: BTreeMap<usize, Address> = BTreeMap::new();
    for i in &want.inputs {
        if let Input::CoinSigned { owner, witness_index, .. } | Input::MessageSigned { recipient: owner, witness_index, .. } = i {
            if x.keys.iter().any(|k| key(*k).2 == **owner) && (*witness_index as usize) < want.witnesses.len() {
                signed.insert(*witness_index as usize, *owner);
            }
        }
    }
    let mut full = want.clone();
    for (w, o) in &signed {
        let k = key_of(o).unwrap();
        full.witnesses[*w] = model_sign(k, &txid);
    }
    c.note(mix(shape(&want), x.keys.len() as u64));
    let how = c.below(6);
    c.log(|| format!("finish ({how}): {}", describe(&want)));
    // a copy taken now is independent of what happens to the original
    let copy = x.clone();
    let got: Item = match how {
        0 | 1 => on!(&mut x.b, t => Item::Tx(t.finalize().into()), mint t => Item::Tx(t.finalize().into())),
        2 => on!(&mut x.b, t => Item::Tx(t.finalize_as_transaction()), mint t => Item::Tx(t.finalize_as_transaction())),
        3 => on!(&mut x.b, t => Item::Tx(t.finalize_without_signature().into()), mint t => Item::Tx(t.finalize_without_signature().into())),
        4 => on!(&mut x.b, t => Item::Tx(t.finalize_without_signature_as_transaction()), mint t => Item::Tx(t.finalize_without_signature_as_transaction())),
        _ => {
            let basic = c.chance(1, 2);
            let e = expect(if basic { &want } else { &full }, if basic { Path::IntoBasic } else { Path::Into }, h, p);
            if e.ok != Some(true) {
                c.count("invalid_session");
                on!(&mut x.b, t => Item::Tx(t.finalize().into()), mint t => Item::Tx(t.finalize().into()))
            } else {
                c.count("finalize_checked");
                macro_rules! chk {
                    ($t:ident) => {{
                        let k = if basic { $t.finalize_checked_basic(h, p) } else { $t.finalize_checked(h, p) };
                        ensure!(k.checks().bits() == e.bits, "checked-record", "finalize_checked lists {:?}", k.checks());
                        let (t, _) = k.into();
                        Item::Tx(t.into())
                    }};
                }
                match &mut x.b {
                    B::Script(t) => chk!(t),
                    B::Create(t) => chk!(t),
                    B::Mint(t) => chk!(t),
                }
            }
        }
    };
    let unsigned = how == 3 || how == 4;
    let mut snap = got.snap().unwrap();
    // signatures are judged by what they prove
    if !unsigned {
        for (w, o) in &signed {
            ensure!(
                signed_by(snap.witnesses.get(*w).map(|x| &x[..]).unwrap_or(&[]), &txid, o),
                "unsigned",
                "witness {w} of the finished transaction is not a signature by {o:?}: {}",
                describe(&snap)
            );
            snap.witnesses[*w] = want.witnesses[*w].clone();
        }
    }
    ensure!(strict(&snap) == strict(&want), "built", "the builder yields {} where the calls describe {}", describe(&snap), describe(&want));
    ensure!(got.is_computed(), "underived", "the finished transaction has no derived data");
    ensure!(got.id() == Some(txid), "built-id", "the finished transaction reports id {:?}, assembled by hand it has {}: {}", got.id().map(|i| hex(&i)), hex(&txid), describe(&want));
    let (gid, ga) = answers(&got);
    let mut hand = Item::Tx(build(&want));
    let (hid, ha) = model_answers(&want);
    ensure!(gid == hid && (unsigned || !signed.is_empty() || ga == ha), "built-derived", "derived data of the finished transaction disagrees with the model: {}", describe(&want));
    hand.precompute();
    ensure!(hand.id() == Some(txid), "hand-id", "hand-assembled transaction reports another id");
    // full check
    if how <= 2 || how == 5 {
        let e = expect(&full, Path::Into, h, p);
        let ok = into_ck(got.clone(), true, h, p);
        match (&ok, e.ok) {
            (Err(g), Some(true)) => return viol("built-refused", format!("the full check refuses a session that describes a valid transaction: {g:?}: {}", describe(&full))),
            (Ok(_), Some(false)) => return viol("built-accepted", format!("the full check accepts a session that breaks {:?}: {}", e.allowed, describe(&full))),
            _ => {}
        }
        c.count(if ok.is_ok() { "sessions_valid" } else { "sessions_refused" });
    }
    // the copy still yields the same transaction
    if c.chance(1, 3) {
        view(&copy)?;
        let mut copy = copy;
        let again = on!(&mut copy.b, t => Item::Tx(t.finalize_without_signature().into()), mint t => Item::Tx(t.finalize_without_signature().into()));
        ensure!(again.strict() == strict(&want), "copy", "a copy of the builder yields {} after the original was finished, not {}", again.describe(), describe(&want));
        ensure!(again.id() == Some(txid), "copy-id", "a copy of the builder yields another id");
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
#[derive(Default, Clone)]
struct Dossier {
    code: Option<Vec<u8>>,
    salt: Option<B32>,
    /// entries in order of arrival, repeats included
    slots: Vec<StorageSlot>,
    seen: BTreeMap<usize, ()>,
}
#[derive(Clone, Debug, PartialEq)]
struct Identity {
    root: B32,
    state: B32,
    id: B32,
}
fn identity(d: &Dossier) -> Identity {
    let k = Contract::from(d.code.clone().unwrap_or_default());
    let root = k.root();
    let state = Contract::initial_state_root(d.slots.iter());
    let id = k.id(&d.salt.unwrap_or_default().into(), &root, &state);
    Identity { root: *root, state: *state, id: *id }
}
fn published(code: &[u8], salt: &B32, slots: &[(B32, B32)]) -> Identity {
    let (root, state) = (code_root(code), state_root(slots));
    Identity { root, state, id: contract_id(salt, &root, &state) }
}
fn c19_contract(c: &mut Ctx) -> R {
    let s = swarm(c);
    let code = match c.below(5) {
        0 => vec![],
        1 => nonempty_blob(c, &s),
        2 => {
            let n = 8 * (c.below(40) + 1);
            let mut b = vec![0; n];
            c.fill(&mut b);
            b
        }
        3 => {
            let n = c.below(200);
            let mut b = vec![0; n];
            c.fill(&mut b);
            b
        }
        _ => blob(c, &s),
    };
    let salt = id32(c, &s);
    let mut map: BTreeMap<B32, B32> = BTreeMap::new();
    let many = c.chance(1, 60);
    let n = if many { 60 + c.below(240) } else { *c.pick(&[0usize, 1, 2, 3, 5, 9, 17, 33]) };
    let close = c.chance(1, 3);
    for _ in 0..n {
        let mut k = id32(c, &s);
        if many {
            c.fill(&mut k);
        }
        if close {
            // long common prefixes
            let base = s.ids[2];
            let d = c.below(256);
            k = base;
            k[d / 8] ^= 1 << (d % 8);
        }
        map.insert(k, id32(c, &s));
    }
    let slots: Vec<(B32, B32)> = map.iter().map(|(k, v)| (*k, *v)).collect();
    let want = published(&code, &salt, &slots);
    c.note(mix(code.len() as u64 % 64, slots.len() as u64));
    c.log(|| format!("code of {} bytes, {} entries: {want:?}", code.len(), slots.len()));
    ensure!(*Contract::default_state_root() == state_root(&[]), "default-state-root", "state root without entries is {:?}", Contract::default_state_root());

    // what the deployer announces: 0 code, 1 salt, 2.. entries, in an order of its own
    let items: Vec<Vec<u8>> = {
        let mut v = vec![code.clone(), salt.to_vec()];
        for x in &slots {
            let mut it = Item::Slot(slot(x));
            v.push(it.to_bytes());
        }
        v
    };
    let parties = 2 + c.below(3);
    let mut net = Net::swarm(c, false);
    let mut ds = vec![Dossier::default(); parties];
    let mut order: Vec<usize> = (0..items.len()).collect();
    for i in (1..order.len()).rev() {
        let j = c.below(i + 1);
        order.swap(i, j);
    }
    // the deployer's own list, in its order
    for i in &order {
        file(&mut ds[0], *i, &items[*i])?;
    }
    order.iter().for_each(|i| c.note(*i as u64));
    let mut rounds = 0;
    loop {
        let missing: Vec<(usize, usize)> =
            (1..parties).flat_map(|q| (0..items.len()).map(move |i| (q, i))).filter(|(q, i)| !ds[*q].seen.contains_key(i)).collect();
        if missing.is_empty() {
            break;
        }
        rounds += 1;
        if rounds == 6 {
            net.heal();
        }
        ensure!(rounds < 12, "no-progress", "entries still missing after the network healed");
        for i in &order {
            for q in 1..parties {
                if missing.contains(&(q, *i)) || c.chance(1, 20) {
                    net.send(c, 0, q, items[*i].clone(), *i as u64);
                }
            }
        }
        while let Some(pk) = net.next(c) {
            file(&mut ds[pk.to], pk.tag as usize, &pk.bytes)?;
            if !net.healed && c.chance(1, 60) {
                // the party restarts with what it had written down: a prefix of its list
                c.count("fault.crash_lost_tail");
                let d = &mut ds[pk.to];
                let keep = c.below(d.slots.len() + 1);
                d.slots.truncate(keep);
                let held: Vec<StorageSlot> = d.slots.clone();
                d.seen.retain(|i, _| match i {
                    0 | 1 => true,
                    i => held.contains(&slot(&slots[i - 2])),
                });
            }
        }
        c.tick(20);
    }
    c.nontrivial = true;
    for (q, d) in ds.iter().enumerate() {
        let got = identity(d);
        ensure!(got.root == want.root, "code-root", "party {q} derives code root {}, published {}: code of {} bytes", hex(&got.root), hex(&want.root), code.len());
        ensure!(
            got.state == want.state,
            "state-root",
            "party {q} derives state root {}, published {}: {} entries, {} arrivals",
            hex(&got.state),
            hex(&want.state),
            slots.len(),
            d.slots.len()
        );
        ensure!(got.id == want.id, "contract-id", "party {q} derives contract id {}, published {}", hex(&got.id), hex(&want.id));
        ensure!(*Contract::root_from_code(&code) == want.root, "root-from-code", "root_from_code differs from the published root");
        // re-sent and reordered once more
        let mut e = d.clone();
        for _ in 0..c.below(4) {
            if e.slots.is_empty() {
                break;
            }
            let (i, j) = (c.below(e.slots.len()), c.below(e.slots.len() + 1));
            let x = e.slots[i].clone();
            e.slots.insert(j, x);
        }
        let l = e.slots.len();
        if l > 1 {
            let k = c.below(l);
            e.slots.rotate_left(k);
            if c.chance(1, 2) {
                e.slots.reverse();
            }
        }
        ensure!(identity(&e) == want, "order", "party {q} derives another identity when entries come in another order or again");
    }
    // the deployment transaction travels
    let p = ConsensusParameters::DEFAULT;
    let mut m = valid_tx(c, &s, &p, 3, Kind::Create);
    m.salt = salt;
    m.slots = slots.clone();
    let w = if m.witnesses.is_empty() { 0 } else { c.below(m.witnesses.len()) };
    if m.witnesses.is_empty() {
        m.witnesses.push(vec![]);
    }
    m.witnesses[w] = code.clone();
    m.bytecode_witness_index = w as u8;
    m.bytecode_length = code.len() as u64 / 4;
    if c.chance(1, 2) {
        sign_but(&mut m, w);
    }
    let mut it = item_of(c, &m);
    for hop in 0..1 + c.below(3) {
        let k = codec_for(c, &it);
        let ty = it.ty();
        let b = ser(&mut it, k)?;
        c.count("fault.restart");
        it = de(ty, k, &b).or_else(|e| viol("relay-refused", format!("hop {hop}: {k:?} form refused: {e}")))?;
        if c.chance(1, 2) {
            it.precompute();
        }
        it = if c.chance(1, 2) { wrapped(it) } else { unwrapped(it) };
        let (k, sl, st) = match &it {
            Item::Create(t) => (Contract::try_from(t), t.storage_slots().clone(), *t.salt()),
            Item::Tx(t) => {
                let Some(cr) = t.as_create() else { return viol("HARNESS", "not a create") };
                (Contract::try_from(t), cr.storage_slots().clone(), *cr.salt())
            }
            _ => return viol("HARNESS", "not a create"),
        };
        let k = match k {
            Ok(k) => k,
            Err(e) => return viol("deploy-refused", format!("no contract in the deployment transaction: {e:?}: {}", describe(&m))),
        };
        ensure!(k.as_ref() == &code[..], "deployed-code", "the deployment transaction yields code {}, deployed was {}", hex(k.as_ref()), hex(&code));
        let d = Dossier { code: Some(Vec::from(k)), salt: Some(*st), slots: sl, seen: Default::default() };
        ensure!(identity(&d) == want, "deployed-identity", "the deployment transaction yields {:?}, published {want:?}", identity(&d));
    }
    if m.witnesses.len() < 250 {
        // a deployment that points at no code yields no contract
        let mut x = m.clone();
        x.bytecode_witness_index = (x.witnesses.len() + c.below(3)) as u8;
        let t = build_create(&x);
        ensure!(Contract::try_from(&t).is_err(), "no-code", "bytecode witness {} of {} yields a contract", x.bytecode_witness_index, x.witnesses.len());
    }
    {
        let k = *c.pick(&[Kind::Script, Kind::Mint]);
        let t = build(&any_tx_kind(c, &s, k));
        ensure!(Contract::try_from(&t).is_err(), "not-a-deployment", "a {k:?} transaction yields a contract");
    }
    // a change changes the identity
    for _ in 0..1 + c.below(3) {
        let mut code2 = code.clone();
        let mut salt2 = salt;
        let mut slots2 = slots.clone();
        let (what, root_differs, state_differs) = match c.below(6) {
            0 if !code2.is_empty() => {
                let i = c.below(code2.len());
                code2[i] ^= 1 << c.below(8);
                ("code byte", true, false)
            }
            1 if !slots2.is_empty() => {
                let i = c.below(slots2.len());
                let b = c.below(256);
                slots2[i].1[b / 8] ^= 1 << (b % 8);
                ("entry value", false, true)
            }
            2 if !slots2.is_empty() => {
                let i = c.below(slots2.len());
                slots2.remove(i);
                ("entry removed", false, true)
            }
            3 => {
                let mut k = [0u8; 32];
                c.fill(&mut k);
                if map.contains_key(&k) {
                    continue;
                }
                slots2.push((k, id32(c, &s)));
                ("entry added", false, true)
            }
            4 if !slots2.is_empty() => {
                let i = c.below(slots2.len());
                let b = c.below(256);
                slots2[i].0[b / 8] ^= 1 << (b % 8);
                if map.contains_key(&slots2[i].0) {
                    continue;
                }
                ("entry key", false, true)
            }
            _ => {
                let b = c.below(256);
                salt2[b / 8] ^= 1 << (b % 8);
                ("salt", false, false)
            }
        };
        c.count("fault.tamper");
        let d = Dossier { code: Some(code2.clone()), salt: Some(salt2), slots: slots2.iter().map(slot).collect(), seen: Default::default() };
        let got = identity(&d);
        ensure!(got.id != want.id, "collision", "changed {what}, same contract id");
        ensure!(!root_differs || got.root != want.root, "collision", "changed {what}, same code root");
        ensure!(!state_differs || got.state != want.state, "collision", "changed {what}, same state root");
        ensure!(got == published(&code2, &salt2, &slots2), "identity", "after changing {what} the identity {got:?} is not the published {:?}", published(&code2, &salt2, &slots2));
    }
    Ok(())
}
fn file(d: &mut Dossier, i: usize, b: &[u8]) -> R {
    match i {
        0 => d.code = Some(b.to_vec()),
        1 => d.salt = Some(b.try_into().unwrap()),
        _ => match Item::from_bytes(Ty::Slot, b) {
            Ok(Item::Slot(x)) => d.slots.push(x),
            _ => return viol("entry-refused", "a storage entry is refused"),
        },
    }
    d.seen.insert(i, ());
    Ok(())
}
/// Sign, leaving the code alone.
fn sign_but(m: &mut M, code_at: usize) {
    let code = m.witnesses[code_at].clone();
    sign_model(m);
    m.witnesses[code_at] = code;
}
