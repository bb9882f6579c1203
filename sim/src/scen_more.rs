//! C20, C21, C22, C24, C25: text, parameter updates, messages between chains, indexes, explorers.
use crate::core::*;
use crate::gen::*;
use crate::item::*;
use crate::model::*;
use crate::node::{self, Form, Kd, Val};
use crate::scen_id::*;
use crate::scen_valid::{judge, run_path, Path};
use crate::scen_misc::{any_params, any_val, item_val, param_list, revise, val_of};
use crate::Scenario;
use fuel_tx::field::Inputs as _;
use fuel_tx::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

pub fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario {
            id: "C20",
            f: c20_text,
            quick: 800_000,
            what: "wallets announce UTXO ids and pointers as text over a lossy, duplicating, corrupting network; receivers read them, keep registries as text files that are torn by crashes, and forward them in other forms; every accepted text is compared with an independent reading, every printed one with an independent writer",
            real: "UtxoId and TxPointer FromStr, LowerHex, UpperHex, Ord",
            stub: "network, files (simulated), reader and writer of the text forms (independent)",
        },
        Scenario {
            id: "C21",
            f: c21_governance,
            quick: 1_000_000,
            what: "numbered parameter updates reach every node over a lossy, duplicating, reordering network; nodes apply them in number order, write snapshots in every stored form, crash and restart from the last snapshot; after each update every parameter is compared with a model",
            real: "ConsensusParameters setters, defaults, serde forms, equality",
            stub: "network, snapshots (simulated), parameter table (independent)",
        },
        Scenario {
            id: "C22",
            f: c22_messages,
            quick: 400_000,
            what: "messages cross between two chains: a portal emits messages that relayers deliver several times and in any order, nodes turn into inputs and relay in every codec, and spend once across crashes; scripts emit messages whose receipts travel back the same way and are paid once; ids, nonces and digests are compared with the published formulas at every hop",
            real: "Input::compute_message_id, add_unsigned_message_input, Output::{message_id, message_nonce, message_digest}, Receipt::{message_out_from_tx_output, message_out, return_data, log_data}, codecs, accessors",
            stub: "portal, relayers, network, spent sets (simulated), hash formulas (independent)",
        },
        Scenario {
            id: "C24",
            f: c24_index,
            quick: 400_000,
            what: "pools and ordered indexes receive values again and again: copies, reloads in any codec, precomputed or not, one field apart; they crash and are rebuilt in another order; membership, counts, hashes and order are compared with a content model",
            real: "Eq, Hash, Ord, Clone of all value types, codecs, precompute, Checked",
            stub: "pools, logs (simulated), content equality (independent encoder)",
        },
        Scenario {
            id: "C25",
            f: c25_explorer,
            quick: 200_000,
            what: "an explorer follows blocks of transactions and receipts over a lossy, duplicating, reordering network, reads them only through accessors into a row store that crashes and is re-synced, answers queries and rebuilds parts from rows through constructors; everything is compared with the content sent",
            real: "accessors, predicates, constructors and representations of Input, Output, Receipt, Witness, Transaction, Executable queries, codecs",
            stub: "network, row store (simulated), content model (independent)",
        },
    ]
}

/// A file of records; a crash keeps the synced part and any prefix of the rest.
#[derive(Default)]
struct Log {
    data: Vec<u8>,
    synced: usize,
}
impl Log {
    fn append(&mut self, b: &[u8]) {
        self.data.extend_from_slice(&(b.len() as u32).to_be_bytes());
        self.data.extend_from_slice(b);
    }
    fn sync(&mut self) {
        self.synced = self.data.len();
    }
    fn crash(&mut self, c: &mut Ctx) {
        let keep = self.synced + c.below(self.data.len() - self.synced + 1);
        c.count(if keep < self.data.len() { "fault.crash_torn_tail" } else { "fault.crash" });
        self.data.truncate(keep);
        // what cannot be read whole is dropped
        let whole: usize = self.records().iter().map(|r| r.len() + 4).sum();
        self.data.truncate(whole);
        self.synced = whole;
    }
    fn records(&self) -> Vec<Vec<u8>> {
        let (mut p, mut v) = (0, vec![]);
        while p + 4 <= self.data.len() {
            let n = u32::from_be_bytes(self.data[p..p + 4].try_into().unwrap_or([0; 4])) as usize;
            if p + 4 + n > self.data.len() {
                break;
            }
            v.push(self.data[p + 4..p + 4 + n].to_vec());
            p += 4 + n;
        }
        v
    }
}
fn shuffle<T>(c: &mut Ctx, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = c.below(i + 1);
        v.swap(i, j);
    }
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Name {
    Utxo(B32, u8),
    Ptr(u32, u16),
}
#[derive(PartialEq, Debug)]
enum Reading {
    /// canonical text: must be read, as this
    Must(Name),
    /// a form the library may know: if read, as this
    May(Name),
    /// no identifier
    No,
}
const LOW: &[u8; 16] = b"0123456789abcdef";
const UP: &[u8; 16] = b"0123456789ABCDEF";
fn digits(b: &[u8], up: bool, out: &mut String) {
    let t = if up { UP } else { LOW };
    for x in b {
        out.push(t[(x >> 4) as usize] as char);
        out.push(t[(x & 15) as usize] as char);
    }
}
/// The text forms, written out.
fn written(n: Name, form: usize) -> String {
    let mut s = String::new();
    match n {
        Name::Utxo(id, i) => {
            if form >= 2 {
                s.push_str("0x");
            }
            digits(&id, form % 2 == 1, &mut s);
            digits(&[i], form % 2 == 1, &mut s);
        }
        Name::Ptr(h, i) => {
            digits(&h.to_be_bytes(), form % 2 == 1, &mut s);
            digits(&i.to_be_bytes(), form % 2 == 1, &mut s);
        }
    }
    s
}
fn nib(b: u8) -> Option<u8> {
    Some(match b {
        b'0'..=b'9' => b - b'0',
        b'a'..=b'f' => b - b'a' + 10,
        b'A'..=b'F' => b - b'A' + 10,
        _ => return None,
    })
}
fn reading(utxo: bool, t: &str) -> Reading {
    let mut b = t.as_bytes();
    let mut prefixes = 0;
    while b.starts_with(b"0x") {
        b = &b[2..];
        prefixes += 1;
    }
    let Some(d) = b.iter().map(|x| nib(*x)).collect::<Option<Vec<u8>>>() else {
        return Reading::No;
    };
    let bytes: Vec<u8> = d.chunks(2).map(|p| if p.len() == 2 { p[0] << 4 | p[1] } else { p[0] }).collect();
    match (utxo, d.len()) {
        (true, 66) => {
            let mut id = [0; 32];
            id.copy_from_slice(&bytes[..32]);
            let n = Name::Utxo(id, bytes[32]);
            if prefixes <= 1 {
                Reading::Must(n)
            } else {
                Reading::May(n)
            }
        }
        // an index on its own
        (true, 0) => Reading::May(Name::Utxo([0; 32], 0)),
        (true, 1 | 2) => Reading::May(Name::Utxo([0; 32], bytes[0])),
        (false, 12) => {
            let n = Name::Ptr(u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]), u16::from_be_bytes([bytes[4], bytes[5]]));
            if prefixes == 0 {
                Reading::Must(n)
            } else {
                Reading::May(n)
            }
        }
        _ => Reading::No,
    }
}
fn real_print(n: Name, form: usize) -> String {
    match n {
        Name::Utxo(id, i) => {
            let u = UtxoId::new(id.into(), i);
            match form {
                0 => format!("{u:x}"),
                1 => format!("{u:X}"),
                2 => format!("{u:#x}"),
                _ => format!("{u:#X}"),
            }
        }
        Name::Ptr(h, i) => {
            let p = TxPointer::new(h, i);
            if form % 2 == 0 {
                format!("{p:x}")
            } else {
                format!("{p:X}")
            }
        }
    }
}
fn real_read(utxo: bool, t: &str) -> Option<Name> {
    if utxo {
        t.parse::<UtxoId>().ok().map(|u| Name::Utxo(**u.tx_id(), u.output_index()))
    } else {
        t.parse::<TxPointer>().ok().map(|p| Name::Ptr(p.block_height(), p.tx_index()))
    }
}
/// Read text as a receiver does; what is accepted must be what the text says.
fn take_text(c: &mut Ctx, utxo: bool, t: &str) -> R<Option<Name>> {
    let got = real_read(utxo, t);
    match (reading(utxo, t), got) {
        (Reading::Must(n), Some(g)) | (Reading::May(n), Some(g)) => {
            ensure!(n == g, "misread", "text {t:?} says {n:?} and was read as {g:?}");
        }
        (Reading::Must(n), None) => return viol("refused", format!("canonical text {t:?} of {n:?} was refused")),
        (Reading::May(_), None) => c.count("text.short_refused"),
        (Reading::No, Some(g)) => return viol("accepted", format!("text {t:?} is no {} and was read as {g:?}", if utxo { "UTXO id" } else { "transaction pointer" })),
        (Reading::No, None) => c.count("text.refused"),
    }
    Ok(got)
}
fn damage_text(c: &mut Ctx, t: &str, other: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let k = c.below(14);
    let at = |c: &mut Ctx, n: usize| if n == 0 { 0 } else { match c.below(4) { 0 => 0, 1 => n - 1, 2 => n.saturating_sub(2), _ => c.below(n) } };
    let i = at(c, v.len());
    let odd = ['+', '-', ' ', '_', 'x', 'g', 'G', '\u{e9}', '\0', '/', ':', '@', '`', '\u{1F600}', 'X', '\n'];
    match k {
        0 if !v.is_empty() => {
            v.remove(i);
        }
        1 if !v.is_empty() => {
            let x = v[i];
            v.insert(i, x);
        }
        2 if !v.is_empty() => v[i] = *c.pick(&odd),
        3 => {
            let x = *c.pick(&odd);
            v.insert(i, x);
        }
        4 => return format!("0x{t}"),
        5 => return format!("0X{t}"),
        6 => return t.trim_start_matches("0x").to_string(),
        7 => return format!("{t}{other}"),
        8 => v.truncate(i),
        9 => {
            v.drain(..i);
        }
        10 => {
            // mixed case
            for x in v.iter_mut() {
                if *x != 'x' && c.chance(1, 2) {
                    *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                }
            }
        }
        11 if v.len() > 1 => {
            let j = (i + 1) % v.len();
            v.swap(i, j);
        }
        12 if !v.is_empty() => v[i] = LOW[c.below(16)] as char,
        13 => {
            // an index on its own
            let n = c.below(4);
            v = v[v.len().saturating_sub(n)..].to_vec();
        }
        _ => {}
    }
    v.into_iter().collect()
}
fn c20_text(c: &mut Ctx) -> R {
    let s = swarm(c);
    let parties = 2 + c.below(2);
    let mut net = Net::swarm(c, false);
    let garble = *c.pick(&[0u64, 0, 100, 400, 800]);
    let mut names: Vec<Name> = vec![];
    for _ in 0..1 + c.below(5) {
        let near = names.last().copied();
        names.push(match (c.below(4), near) {
            (0, Some(Name::Utxo(id, i))) => Name::Utxo(id, i.wrapping_add(1 + c.below(255) as u8)),
            (1, Some(Name::Utxo(mut id, i))) => {
                id[c.below(32)] ^= 1 << c.below(8);
                Name::Utxo(id, i)
            }
            (0, Some(Name::Ptr(h, i))) => Name::Ptr(h, i.wrapping_add(1)),
            (1, Some(Name::Ptr(h, i))) => Name::Ptr(h.wrapping_add(1), i),
            (2, _) => {
                let p = ptr(c);
                Name::Ptr(p.block_height(), p.tx_index())
            }
            _ => Name::Utxo(id32(c, &s), byte(c)),
        });
    }
    let is_utxo = |n: &Name| matches!(n, Name::Utxo(..));
    // what each party has on file: kind, form, text
    let mut files: Vec<Log> = (0..parties).map(|_| Log::default()).collect();
    let mut known: Vec<BTreeSet<Name>> = vec![BTreeSet::new(); parties];
    known[0] = names.iter().copied().collect();
    let mut rounds = 0;
    loop {
        let want: BTreeSet<Name> = names.iter().copied().collect();
        if known.iter().all(|k| k.is_superset(&want)) {
            break;
        }
        rounds += 1;
        if rounds >= 4 {
            net.heal();
        }
        ensure!(rounds < 10, "no-progress", "announcements still missing after the network healed");
        for from in 0..parties {
            let have: Vec<Name> = known[from].iter().copied().collect();
            for n in have {
                if from > 0 && c.chance(1, 2) {
                    continue;
                }
                c.mark();
                let form = c.below(4);
                let t = real_print(n, form);
                ensure!(t == written(n, form), "printed", "{n:?} prints as {t:?} in form {form}, canonical is {:?}", written(n, form));
                let mut t = t;
                if !net.healed && garble > 0 && c.chance(garble, 1000) {
                    let other = written(*c.pick(&names), form);
                    for _ in 0..1 + c.below(2) {
                        t = damage_text(c, &t, &other);
                    }
                    c.count("fault.garbled_text");
                }
                let to = if from == 0 { 1 + c.below(parties - 1) } else { 0 };
                let u = is_utxo(&n);
                if net.healed {
                    // everyone is told
                    for q in 1..parties {
                        net.send(c, 0, q, t.clone().into_bytes(), u as u64);
                    }
                } else {
                    net.send(c, from, to, t.into_bytes(), u as u64);
                }
            }
        }
        while let Some(pk) = net.next(c) {
            let t = String::from_utf8_lossy(&pk.bytes).into_owned();
            c.note(mix(pk.tag, hash_bytes(t.as_bytes())));
            c.log(|| format!("{} reads {t:?} as a {}", pk.to, if pk.tag == 1 { "UTXO id" } else { "pointer" }));
            if let Some(n) = take_text(c, pk.tag == 1, &t)? {
                // the other kind of reader gets it as well
                take_text(c, pk.tag == 0, &t)?;
                if known[pk.to].insert(n) && known[pk.to].len() < 40 {
                    let form = c.below(4);
                    let mut line = vec![pk.tag as u8];
                    line.extend(real_print(n, form).into_bytes());
                    files[pk.to].append(&line);
                }
            }
            if c.chance(1, 4) {
                files[pk.to].sync();
            }
            if !net.healed && c.chance(1, 15) {
                // restart from the file
                c.log(|| format!("{} restarts from its file", pk.to));
                files[pk.to].crash(c);
                let held = known[pk.to].clone();
                let mut back = BTreeSet::new();
                for r in files[pk.to].records() {
                    let t = String::from_utf8_lossy(&r[1..]).into_owned();
                    match take_text(c, r[0] == 1, &t)? {
                        Some(n) => {
                            ensure!(held.contains(&n), "file", "the registry file yields {n:?}, which was never put there");
                            back.insert(n);
                        }
                        None => return viol("file", format!("the registry line {t:?} is refused")),
                    }
                }
                if pk.to == 0 {
                    back.extend(names.iter().copied());
                }
                known[pk.to] = back;
            }
        }
        c.tick(10);
    }
    c.nontrivial = true;
    // registries agree on the order of what they hold, whether they sort values or lines
    for k in &known {
        let mut u: Vec<UtxoId> = k.iter().filter_map(|n| if let Name::Utxo(a, b) = n { Some(UtxoId::new((*a).into(), *b)) } else { None }).collect();
        let mut p: Vec<TxPointer> = k.iter().filter_map(|n| if let Name::Ptr(a, b) = n { Some(TxPointer::new(*a, *b)) } else { None }).collect();
        shuffle(c, &mut u);
        u.sort();
        p.sort();
        let lines = |mut v: Vec<String>| {
            let w = v.clone();
            v.sort();
            v == w
        };
        ensure!(lines(u.iter().map(|x| format!("{x:x}")).collect()), "order", "UTXO ids sort differently as values and as text");
        ensure!(lines(p.iter().map(|x| format!("{x:x}")).collect()), "order", "pointers sort differently as values and as text");
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
type Setter = fn(ConsensusParameters, u64) -> ConsensusParameters;
const SETTERS: [(&str, Setter); 13] = [
    ("contract_max_size", ConsensusParameters::with_contract_max_size),
    ("max_inputs", ConsensusParameters::with_max_inputs),
    ("max_outputs", ConsensusParameters::with_max_outputs),
    ("max_witnesses", ConsensusParameters::with_max_witnesses),
    ("max_gas_per_tx", ConsensusParameters::with_max_gas_per_tx),
    ("max_script_length", ConsensusParameters::with_max_script_length),
    ("max_script_data_length", ConsensusParameters::with_max_script_data_length),
    ("max_storage_slots", ConsensusParameters::with_max_storage_slots),
    ("max_predicate_length", ConsensusParameters::with_max_predicate_length),
    ("max_predicate_data_length", ConsensusParameters::with_max_predicate_data_length),
    ("gas_price_factor", ConsensusParameters::with_gas_price_factor),
    ("gas_per_byte", ConsensusParameters::with_gas_per_byte),
    ("max_message_data_length", ConsensusParameters::with_max_message_data_length),
];
struct Keeper {
    p: ConsensusParameters,
    next: usize,
    early: BTreeMap<usize, Vec<u8>>,
    snap: Vec<(Form, usize, Vec<u8>)>,
}
fn params_of(l: &[u64; 13]) -> ConsensusParameters {
    ConsensusParameters {
        contract_max_size: l[0],
        max_inputs: l[1],
        max_outputs: l[2],
        max_witnesses: l[3],
        max_gas_per_tx: l[4],
        max_script_length: l[5],
        max_script_data_length: l[6],
        max_storage_slots: l[7],
        max_predicate_length: l[8],
        max_predicate_data_length: l[9],
        gas_price_factor: l[10],
        gas_per_byte: l[11],
        max_message_data_length: l[12],
    }
}
/// The transaction lies behind its id, its size, and a balance for each possible input.
fn offset(p: &ConsensusParameters, l: &[u64; 13]) -> R {
    if l[1] < 1 << 50 {
        let want = 32 + 8 + l[1] * (32 + 8);
        ensure!(p.tx_offset() as u64 == want, "offset", "with {} inputs allowed the transaction offset is {}, should be {want}", l[1], p.tx_offset());
    }
    Ok(())
}
fn c21_governance(c: &mut Ctx) -> R {
    const FS: [Form; 3] = [Form::Json, Form::Pretty, Form::Bincode];
    let start = match c.below(4) {
        0 => ConsensusParameters::DEFAULT,
        1 => ConsensusParameters::default(),
        _ => any_params(c),
    };
    let n = 1 + c.below(14);
    let mut table = vec![param_list(&start)];
    let mut props = vec![];
    let narrow = c.chance(1, 3);
    for i in 0..n {
        let f = if narrow { *c.pick(&[2usize, 5, 9]) } else { c.below(13) };
        let prev: [u64; 13] = table[i];
        let v = match c.below(4) {
            0 => prev[c.below(13)],
            1 => prev[f].wrapping_add(1),
            _ => word(c),
        };
        let mut next = prev;
        next[f] = v;
        table.push(next);
        let mut b = vec![f as u8];
        b.extend(v.to_be_bytes());
        c.log(|| format!("update {i}: {} := {v}", SETTERS[f].0));
        c.note(mix(f as u64, v));
        props.push(b);
    }
    let parties = 1 + c.below(3);
    let mut net = Net::swarm(c, false);
    let mut ks: Vec<Keeper> = (0..parties).map(|_| Keeper { p: start, next: 0, early: BTreeMap::new(), snap: vec![] }).collect();
    let mut rounds = 0;
    while ks.iter().any(|k| k.next < n) {
        rounds += 1;
        if rounds >= 5 {
            net.heal();
        }
        ensure!(rounds < 12, "no-progress", "updates still missing after the network healed");
        let mut order: Vec<usize> = (0..n).collect();
        if c.chance(1, 2) {
            shuffle(c, &mut order);
        }
        for i in order {
            for q in 0..parties {
                if i >= ks[q].next || c.chance(1, 10) {
                    net.send(c, parties, q, props[i].clone(), i as u64);
                }
            }
        }
        while let Some(pk) = net.next(c) {
            let q = pk.to;
            let k = &mut ks[q];
            if pk.tag as usize >= k.next {
                k.early.insert(pk.tag as usize, pk.bytes);
            }
            while let Some(b) = k.early.remove(&k.next) {
                let f = b[0] as usize;
                let v = u64::from_be_bytes(b[1..9].try_into().unwrap_or([0; 8]));
                k.p = SETTERS[f].1(k.p, v);
                k.next += 1;
                let (got, want) = (param_list(&k.p), table[k.next]);
                for j in 0..13 {
                    ensure!(got[j] == want[j], "update", "after setting {} to {v}, {} is {} and should be {}", SETTERS[f].0, SETTERS[j].0, got[j], want[j]);
                }
                offset(&k.p, &want)?;
            }
            if c.chance(1, 6) {
                let form = *c.pick(&FS);
                let b = node::store(&Val::Params(k.p), form);
                let Some(b) = b else {
                    return viol("snapshot", "parameters cannot be stored");
                };
                k.snap.push((form, k.next, b));
            }
            if !net.healed && c.chance(1, 12) {
                c.count("fault.crash");
                k.early.clear();
                // the newest snapshot may be torn
                while let Some((form, at, b)) = k.snap.pop() {
                    let torn = c.chance(1, 4);
                    if torn && c.below(b.len() + 1) < b.len() {
                        c.count("fault.torn_snapshot");
                        continue;
                    }
                    match node::load(Kd::Params, form, &b) {
                        Some(Val::Params(p)) => {
                            ensure!(param_list(&p) == table[at], "restart", "a node restarted from the snapshot after update {at} has {p:?}, should be {:?}", table[at]);
                            k.p = p;
                            k.next = at;
                            offset(&k.p, &table[at])?;
                            k.snap.push((form, at, b));
                        }
                        _ => return viol("restart", format!("a node refuses its own {form:?} snapshot of {:?}", table[at])),
                    }
                    break;
                }
                if k.snap.is_empty() {
                    k.p = start;
                    k.next = 0;
                }
            }
        }
        c.tick(10);
    }
    c.nontrivial = true;
    let want = params_of(&table[n]);
    // what the limits are for: verdicts under them are the same everywhere
    if want.gas_price_factor > 0 && c.chance(1, 4) {
        let s = swarm(c);
        let kd = kind(c);
        let h = c.draw(100);
        let mut m = valid_tx(c, &s, &want, h, kd);
        if c.chance(2, 3) {
            rule_mutation(c, &s, &mut m, &want, h);
        }
        let it = item_of(c, &m);
        for k in &ks {
            judge(&m, Path::Static, h, &want, &run_path(&it, Path::Static, h, &k.p))?;
        }
    }
    for k in &ks {
        ensure!(k.p == ks[0].p && param_list(&k.p) == table[n], "final", "nodes that applied the same updates hold {:?} and {:?}, should be {:?}", k.p, ks[0].p, table[n]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Msg {
    sender: B32,
    recipient: B32,
    nonce: u64,
    amount: u64,
    data: Vec<u8>,
}
fn down_id(m: &Msg) -> B32 {
    sha(&[&m.sender, &m.recipient, &m.nonce.to_be_bytes(), &m.amount.to_be_bytes(), &m.data])
}
fn up_nonce(tx: &B32, i: u64) -> B32 {
    sha(&[tx, &[i as u8]])
}
fn up_id(sender: &B32, recipient: &B32, nonce: &B32, amount: u64, data: &[u8]) -> B32 {
    sha(&[sender, recipient, nonce, &amount.to_be_bytes(), data])
}
fn short_blob(c: &mut Ctx, s: &Swarm) -> Vec<u8> {
    if c.chance(1, 3) {
        let n = c.below(20);
        let mut b = vec![0; n];
        c.fill(&mut b);
        b
    } else {
        blob(c, s)
    }
}
fn any_msg(c: &mut Ctx, s: &Swarm, near: Option<&Msg>) -> Msg {
    let fresh = |c: &mut Ctx| Msg { sender: id32(c, s), recipient: id32(c, s), nonce: word(c), amount: word(c), data: short_blob(c, s) };
    let Some(x) = near else { return fresh(c) };
    let mut m = x.clone();
    match c.below(9) {
        0 => m.nonce = m.nonce.wrapping_add(1),
        1 => m.amount = m.amount.wrapping_add(1),
        2 => std::mem::swap(&mut m.sender, &mut m.recipient),
        3 => std::mem::swap(&mut m.nonce, &mut m.amount),
        4 => m.data.push(0),
        5 => {
            m.data.pop();
        }
        6 => {
            let d = c.below(256);
            m.recipient[d / 8] ^= 1 << (d % 8);
        }
        7 => {
            if !m.data.is_empty() {
                let i = c.below(m.data.len());
                m.data[i] ^= 1 << c.below(8);
            }
        }
        _ => return fresh(c),
    }
    m
}
/// The ways a node turns a message into an input.
fn as_input(c: &mut Ctx, s: &Swarm, m: &Msg) -> R<Input> {
    let (a, b): (Address, Address) = (m.sender.into(), m.recipient.into());
    Ok(match c.below(5) {
        0 => Input::message_signed(Input::compute_message_id(&a, &b, m.nonce, m.amount, &m.data), a, b, m.amount, m.nonce, byte(c), m.data.clone()),
        1 => Input::message_predicate(
            Input::compute_message_id(&a, &b, m.nonce, m.amount, &m.data),
            a,
            b,
            m.amount,
            m.nonce,
            m.data.clone(),
            nonempty_blob(c, s),
            blob(c, s),
        ),
        2 => {
            let mut t = Script::default();
            t.add_unsigned_message_input(a, b, m.nonce, m.amount, m.data.clone());
            last(t.inputs())?
        }
        3 => {
            let mut t = Create::default();
            t.add_unsigned_message_input(a, b, m.nonce, m.amount, m.data.clone());
            last(t.inputs())?
        }
        _ => {
            // the builder addresses the message to the key's owner
            let (k, _, owner) = key(c.below(4));
            let mut t = TransactionBuilder::script(vec![], vec![]);
            t.add_unsigned_message_input(k, a, m.nonce, m.amount, m.data.clone());
            let t = t.finalize_without_signature();
            let i = last(t.inputs())?;
            let own = Msg { recipient: owner, ..m.clone() };
            ensure!(i.message_id().map(|x| **x) == Some(down_id(&own)), "builder-id", "the builder gives {own:?} the id {:?}, published {}", i.message_id(), hex(&down_id(&own)));
            // this one goes by its own recipient; what follows needs the announced one
            Input::message_signed(Input::compute_message_id(&a, &b, m.nonce, m.amount, &m.data), a, b, m.amount, m.nonce, 0, m.data.clone())
        }
    })
}
fn last(v: &[Input]) -> R<Input> {
    match v.last() {
        Some(i) => Ok(i.clone()),
        None => viol("missing-input", "the added message is not among the inputs"),
    }
}
fn read_msg(i: &Input) -> Option<(B32, Msg)> {
    Some((
        **i.message_id()?,
        Msg { sender: **i.sender()?, recipient: **i.recipient()?, nonce: i.nonce()?, amount: i.amount()?, data: i.input_data()?.to_vec() },
    ))
}
fn msg_bytes(m: &Msg) -> Vec<u8> {
    [&m.sender[..], &m.recipient, &m.nonce.to_be_bytes(), &m.amount.to_be_bytes(), &m.data].concat()
}
fn msg_of(b: &[u8]) -> Option<Msg> {
    Some(Msg {
        sender: b.get(..32)?.try_into().ok()?,
        recipient: b.get(32..64)?.try_into().ok()?,
        nonce: u64::from_be_bytes(b.get(64..72)?.try_into().ok()?),
        amount: u64::from_be_bytes(b.get(72..80)?.try_into().ok()?),
        data: b.get(80..)?.to_vec(),
    })
}
fn tx_bytes(c: &mut Ctx, it: &mut Item) -> R<(u64, Vec<u8>)> {
    let k = codec_for(c, it);
    Ok((k as u64, ser(it, k)?))
}
fn codec_at(k: u64) -> Codec {
    CODECS[(k as usize) % 3]
}
fn c22_messages(c: &mut Ctx) -> R {
    if c.chance(1, 2) {
        c22_down(c)
    } else {
        c22_up(c)
    }
}
/// Portal to chain: node 1 builds transactions, node 2 receives them and spends each message once.
fn c22_down(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut msgs: Vec<Msg> = vec![];
    for _ in 0..1 + c.below(5) {
        let near = if msgs.is_empty() { None } else { Some(c.pick(&msgs).clone()) };
        let m = any_msg(c, &s, near.as_ref());
        msgs.push(m);
    }
    for m in &msgs {
        c.log(|| format!("announced: {m:?}"));
    }
    let distinct: BTreeSet<Msg> = msgs.iter().cloned().collect();
    distinct.iter().for_each(|m| c.note(mix(m.data.len() as u64, m.amount ^ m.nonce)));
    let mut net = Net::swarm(c, false);
    let mut seen: BTreeSet<Msg> = BTreeSet::new();
    // the chain's record of what was spent, by id
    let mut spent: BTreeMap<B32, Msg> = BTreeMap::new();
    let mut log = Log::default();
    let mut rounds = 0;
    while spent.len() < distinct.len() {
        rounds += 1;
        if rounds >= 4 {
            net.heal();
        }
        ensure!(rounds < 10, "not-all-spent", "{} distinct messages, {} were recognised as different", distinct.len(), spent.len());
        for m in &msgs {
            net.send(c, 0, 1, msg_bytes(m), 9);
        }
        let mut hops = 0;
        while let Some(pk) = net.next(c) {
            hops += 1;
            c.note(mix(pk.to as u64, pk.bytes.len() as u64));
            if pk.to == 1 {
                let Some(m) = msg_of(&pk.bytes) else { continue };
                seen.insert(m.clone());
                let mut t = Script::default();
                let n = 1 + c.below(2);
                for j in 0..n {
                    let x = if j == 0 { m.clone() } else { let v: Vec<Msg> = seen.iter().cloned().collect(); c.pick(&v).clone() };
                    let i = as_input(c, &s, &x)?;
                    let (id, back) = match read_msg(&i) {
                        Some(x) => x,
                        None => return viol("not-a-message", format!("the input made from {x:?} does not read as a message: {i:?}")),
                    };
                    ensure!(back == x, "carried", "the input made from {x:?} carries {back:?}");
                    ensure!(id == down_id(&x), "message-id", "{x:?} got the id {}, published {}", hex(&id), hex(&down_id(&x)));
                    t.inputs_mut().push(i);
                }
                let mut it = if c.chance(1, 2) { Item::Script(t) } else { Item::Tx(t.into()) };
                if c.chance(1, 2) {
                    it.precompute();
                }
                let (k, b) = tx_bytes(c, &mut it)?;
                let ty = if it.ty() == Ty::Script { 3 } else { 0 };
                net.send(c, 1, 2, b, k + ty);
            } else {
                let it = de(if pk.tag >= 3 { Ty::Script } else { Ty::Tx }, codec_at(pk.tag), &pk.bytes).or_else(|e| viol("relay", format!("a relayed transaction is refused: {e}")))?;
                let inputs = match &it {
                    Item::Script(t) | Item::Tx(Transaction::Script(t)) => t.inputs().clone(),
                    _ => return viol("relay", "a relayed script is no script any more"),
                };
                c.log(|| format!("chain receives a transaction with {} messages", inputs.len()));
                for i in &inputs {
                    let Some((id, m)) = read_msg(i) else {
                        return viol("relay", format!("a relayed message input does not read as one: {i:?}"));
                    };
                    // the chain checks the id against the content
                    let again = Input::compute_message_id(&m.sender.into(), &m.recipient.into(), m.nonce, m.amount, &m.data);
                    ensure!(*again == id && id == down_id(&m), "message-id", "{m:?} has the id {}, recomputed {}, published {}", hex(&id), hex(&*again), hex(&down_id(&m)));
                    if let Some(old) = spent.get(&id) {
                        ensure!(*old == m, "id-shared", "{old:?} and {m:?} share the id {}", hex(&id));
                        c.count("spend.refused_twice");
                        continue;
                    }
                    spent.insert(id, m);
                    log.append(&id);
                }
                if c.chance(1, 3) {
                    log.sync();
                }
                if !net.healed && c.chance(1, 10) {
                    log.crash(c);
                    let ids: BTreeSet<Vec<u8>> = log.records().into_iter().collect();
                    c.log(|| format!("chain restarts with {} spent ids", ids.len()));
                    spent.retain(|k, _| ids.contains(&k.to_vec()));
                }
            }
            if hops > 300 {
                break;
            }
        }
        c.tick(10);
    }
    c.nontrivial = true;
    let got: BTreeSet<Msg> = spent.values().cloned().collect();
    ensure!(got == distinct, "spent-set", "the messages spent are not the messages sent");
    Ok(())
}
/// Chain to portal: receipts of executed scripts, each output paid once.
fn c22_up(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut net = Net::swarm(c, false);
    struct Out {
        tx: B32,
        idx: u64,
        m: Msg,
    }
    let mut outs: Vec<Out> = vec![];
    let mut tx = id32(c, &s);
    for _ in 0..1 + c.below(4) {
        match c.below(3) {
            0 => tx = id32(c, &s),
            1 => tx[c.below(32)] ^= 1 << c.below(8),
            _ => {}
        }
        let near = outs.last().map(|o: &Out| o.m.clone());
        let m = any_msg(c, &s, near.as_ref());
        let idx = if c.chance(1, 2) { *c.pick(&[0u64, 1, 2, 7, 127, 128, 254]) } else { c.below(255) as u64 };
        if outs.iter().any(|o| o.tx == tx && o.idx == idx) {
            continue;
        }
        c.log(|| format!("output {idx} of {}: {m:?}", hex(&tx)));
        outs.push(Out { tx, idx, m });
    }
    let want: BTreeMap<B32, u64> = outs
        .iter()
        .map(|o| (up_id(&o.m.sender, &o.m.recipient, &up_nonce(&o.tx, o.idx), o.m.amount, &o.m.data), o.m.amount))
        .collect();
    ensure!(want.len() == outs.len(), "model", "model ids collide");
    let mut paid: BTreeMap<B32, u64> = BTreeMap::new();
    let mut log = Log::default();
    let mut rounds = 0;
    while paid != want {
        rounds += 1;
        if rounds >= 4 {
            net.heal();
        }
        ensure!(rounds < 10, "not-all-paid", "paid {paid:?}, due {want:?}");
        for o in &outs {
            c.mark();
            let (a, b): (Address, Address) = (o.m.sender.into(), o.m.recipient.into());
            let txid: Bytes32 = o.tx.into();
            let r = if c.chance(1, 2) {
                Receipt::message_out_from_tx_output(&txid, o.idx, a, b, o.m.amount, o.m.data.clone())
            } else {
                // assembled by an executor from the parts
                let n = Output::message_nonce(&txid, o.idx);
                Receipt::message_out(Output::message_id(&a, &b, &n, o.m.amount, &o.m.data), a, b, o.m.amount, n, Output::message_digest(&o.m.data), o.m.data.clone())
            };
            check_out(&r, &o.tx, o.idx, &o.m, "as emitted")?;
            let mut it = Item::Receipt(r);
            let k = *c.pick(&CODECS);
            let b = ser(&mut it, k)?;
            net.send(c, 0, 1, b, k as u64);
            // other payload-carrying receipts of the same execution
            if c.chance(1, 4) {
                let id: ContractId = id32(c, &s).into();
                let d: Bytes32 = Output::message_digest(&o.m.data);
                ensure!(*d == sha(&[&o.m.data]), "digest", "digest of {:?} is {d:?}", o.m.data);
                let (r, p) = if c.chance(1, 2) {
                    (Receipt::return_data(id, 8, d, o.m.data.clone(), 0, 0), "return data")
                } else {
                    (Receipt::log_data(id, 1, 2, 8, d, o.m.data.clone(), 0, 0), "log data")
                };
                let ok = r.digest() == Some(&d) && r.data() == Some(&o.m.data[..]) && r.len() == Some(padded(o.m.data.len()) as u64) && r.id() == Some(&id) && r.ptr() == Some(8);
                ensure!(ok, "payload", "a {p} receipt for {:?} reads digest {:?}, length {:?}, data {:?}", o.m.data, r.digest(), r.len(), r.data());
            }
        }
        while let Some(pk) = net.next(c) {
            c.note(mix(pk.tag, pk.bytes.len() as u64));
            let it = de(Ty::Receipt, codec_at(pk.tag), &pk.bytes).or_else(|e| viol("relay", format!("a relayed receipt is refused: {e}")))?;
            let Item::Receipt(r) = it else { continue };
            let f = (|| Some((r.message_id()?, r.sender()?, r.recipient()?, r.amount()?, r.nonce()?, r.digest()?, r.data()?)))();
            let Some((id, sender, recipient, amount, nonce, digest, data)) = f else {
                return viol("relay", format!("a relayed message receipt lacks a part: {r:?}"));
            };
            // the portal recomputes everything it can
            let again = Output::message_id(sender, recipient, nonce, amount, data);
            ensure!(again == *id && **id == up_id(sender, recipient, nonce, amount, data), "message-id", "{r:?} recomputes to {again:?}, published {}", hex(&up_id(sender, recipient, nonce, amount, data)));
            ensure!(**digest == sha(&[data]) && Output::message_digest(data) == *digest, "digest", "{r:?} carries a digest that is not that of its data");
            let o = outs.iter().find(|o| up_nonce(&o.tx, o.idx) == **nonce);
            let Some(o) = o else {
                return viol("nonce", format!("{r:?} carries a nonce of none of the outputs"));
            };
            check_out(&r, &o.tx, o.idx, &o.m, "as received")?;
            c.log(|| format!("portal receives output {} of {}", o.idx, hex(&o.tx)));
            if paid.insert(**id, amount).is_none() {
                log.append(&**id);
            } else {
                c.count("pay.refused_twice");
            }
            if c.chance(1, 3) {
                log.sync();
            }
            if !net.healed && c.chance(1, 10) {
                log.crash(c);
                let ids: BTreeSet<Vec<u8>> = log.records().into_iter().collect();
                c.log(|| format!("portal restarts with {} paid ids", ids.len()));
                paid.retain(|k, _| ids.contains(&k.to_vec()));
            }
        }
        c.tick(10);
    }
    c.note(want.len() as u64 + 100);
    c.nontrivial = true;
    Ok(())
}
fn check_out(r: &Receipt, tx: &B32, idx: u64, m: &Msg, when: &str) -> R {
    let nonce = up_nonce(tx, idx);
    let w = up_id(&m.sender, &m.recipient, &nonce, m.amount, &m.data);
    ensure!(r.message_id().map(|x| **x) == Some(w), "message-id", "{when}: output {idx} has message id {:?}, published {}", r.message_id(), hex(&w));
    ensure!(r.nonce().map(|x| **x) == Some(nonce), "nonce", "{when}: output {idx} has nonce {:?}, published {}", r.nonce(), hex(&nonce));
    ensure!(r.digest().map(|x| **x) == Some(sha(&[&m.data])), "digest", "{when}: output {idx} has digest {:?}", r.digest());
    let ok = r.sender().map(|x| **x) == Some(m.sender)
        && r.recipient().map(|x| **x) == Some(m.recipient)
        && r.amount() == Some(m.amount)
        && r.data() == Some(&m.data[..])
        && r.len() == Some(padded(m.data.len()) as u64)
        && r.is_empty() == Some(m.data.is_empty());
    ensure!(ok, "carried", "{when}: the receipt of {m:?} reads {r:?}");
    Ok(())
}

// ------------------------------------------------------------------ C24
/// Everything equality is about.
fn content(v: &Val) -> Vec<u8> {
    match item_val(v) {
        Some(it) => it.strict(),
        None => match v {
            Val::Params(p) => param_list(p).iter().flat_map(|w| w.to_be_bytes()).collect(),
            Val::Contract(x) => x.as_ref().to_vec(),
            x => format!("{x:?}").into_bytes(),
        },
    }
}
fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
macro_rules! inner {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Val::Tx($x) => $e,
            Val::Script($x) => $e,
            Val::Create($x) => $e,
            Val::Mint($x) => $e,
            Val::Input($x) => $e,
            Val::Output($x) => $e,
            Val::Witness($x) => $e,
            Val::Slot($x) => $e,
            Val::Utxo($x) => $e,
            Val::Ptr($x) => $e,
            Val::Receipt($x) => $e,
            Val::Params($x) => $e,
            Val::Contract($x) => $e,
            Val::Fee($x) => $e,
            Val::Error($x) => $e,
        }
    };
}
/// A key of a pool: equality and hash are the library's.
#[derive(Clone, Debug)]
struct PoolKey(Val);
impl PartialEq for PoolKey {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for PoolKey {}
impl Hash for PoolKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        inner!(&self.0, x => x.hash(h))
    }
}
type Fixed = std::hash::BuildHasherDefault<DefaultHasher>;
/// One step away from a value: sometimes the same content, mostly one field apart.
fn neighbour(c: &mut Ctx, s: &Swarm, v: &Val) -> Val {
    match v {
        Val::Params(p) => {
            let i = c.below(13);
            let w = param_list(p)[i] ^ (1 << c.below(64));
            Val::Params(SETTERS[i].1(*p, w))
        }
        Val::Contract(x) => {
            let mut b = x.as_ref().to_vec();
            match c.below(3) {
                0 => b.push(0),
                1 => {
                    b.pop();
                }
                _ => {
                    if !b.is_empty() {
                        let i = c.below(b.len());
                        b[i] ^= 1 << c.below(8);
                    }
                }
            }
            Val::Contract(b.into())
        }
        Val::Fee(_) | Val::Error(_) => any_val(c, s, v.kd()),
        _ => {
            let Some(it) = item_val(v) else { return v.clone() };
            if it.is_tx() {
                return revise(c, s, v.clone());
            }
            // one bit of one field
            for _ in 0..4 {
                let mut b = it.model().b;
                if b.is_empty() {
                    break;
                }
                let i = c.below(b.len());
                b[i] ^= 1 << c.below(8);
                if let Ok((mut x, _)) = model_decode(it.ty(), &b) {
                    if let Item::Receipt(Receipt::Panic { reason, .. }) = &mut x {
                        // what the word can carry
                        *reason = InstructionResult::from(u64::from(*reason));
                    }
                    return val_of(x);
                }
            }
            any_val(c, s, v.kd())
        }
    }
}
/// The same content by another way.
fn same_content(c: &mut Ctx, s: &Swarm, v: &Val) -> R<Val> {
    let Some(mut it) = item_val(v) else {
        let form = *c.pick(&[Form::Json, Form::Pretty, Form::Bincode]);
        let b = node::store(v, form);
        return match b.and_then(|b| node::load(v.kd(), form, &b)) {
            Some(x) => Ok(x),
            None => viol("copy", format!("{v:?} is not taken back in {form:?} form")),
        };
    };
    match c.below(5) {
        0 => Ok(v.clone()),
        1 | 2 => {
            if it.is_tx() {
                it.precompute();
            }
            Ok(val_of(it))
        }
        3 if it.is_tx() => {
            // changed and changed back; the cached data are left over
            let m = it.snap().unwrap_or_else(|| M::empty(Kind::Script));
            it.precompute();
            let mut other = m.clone();
            field_edit(c, s, &mut other);
            assign(&mut it, &other);
            assign(&mut it, &m);
            Ok(val_of(it))
        }
        _ => {
            let k = codec_for(c, &it);
            let b = ser(&mut it, k)?;
            match de(it.ty(), k, &b) {
                Ok(x) => Ok(val_of(x)),
                Err(e) => viol("copy", format!("{} is not taken back in {k:?} form: {e}", it.describe())),
            }
        }
    }
}
fn brief(v: &Val) -> String {
    item_val(v).map(|i| i.describe()).unwrap_or_else(|| format!("{v:?}"))
}
fn compare(a: &Val, b: &Val, same: bool) -> R {
    let eq = a == b;
    ensure!(eq == same, if same { "unequal" } else { "equal" }, "{} and {} {} the same content and compare {}", brief(a), brief(b), if same { "have" } else { "do not have" }, if eq { "equal" } else { "unequal" });
    ensure!((b == a) == eq && (a != b) != eq, "asymmetric", "equality of {} and {} depends on the side", brief(a), brief(b));
    if eq {
        ensure!(hash_of(&PoolKey(a.clone())) == hash_of(&PoolKey(b.clone())), "hash", "{} and {} are equal and hash differently", brief(a), brief(b));
    }
    Ok(())
}
fn c24_index(c: &mut Ctx) -> R {
    match c.below(8) {
        0 | 1 => return c24_order(c),
        2 => return c24_checked(c),
        _ => {}
    }
    let s = swarm(c);
    let kd = if c.chance(1, 2) { *c.pick(&[Kd::Tx, Kd::Script, Kd::Create, Kd::Mint, Kd::Input, Kd::Output, Kd::Receipt]) } else { *c.pick(&node::KDS) };
    let steps = 3 + c.below(8);
    // content model: content -> times seen
    let mut model: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut reps: Vec<Val> = vec![];
    let mut pool: HashMap<PoolKey, usize, Fixed> = HashMap::default();
    let mut journal: Vec<Val> = vec![];
    for _ in 0..steps {
        c.mark();
        c.tick(1);
        let v = match c.below(6) {
            _ if reps.is_empty() => any_val(c, &s, kd),
            0 => any_val(c, &s, kd),
            1..=3 => {
                let base = c.pick(&reps).clone();
                neighbour(c, &s, &base)
            }
            _ => {
                let base = c.pick(&reps).clone();
                let v = same_content(c, &s, &base)?;
                ensure!(content(&v) == content(&base), "copy", "a copy of {} is {}", brief(&base), brief(&v));
                v
            }
        };
        let k = content(&v);
        c.log(|| format!("arrives: {}", brief(&v)));
        for r in &reps {
            compare(r, &v, content(r) == k)?;
        }
        compare(&v, &v.clone(), true)?;
        *pool.entry(PoolKey(v.clone())).or_default() += 1;
        *model.entry(k.clone()).or_default() += 1;
        c.note(mix(kd as u64, item_val(&v).map(|i| i.shape()).unwrap_or(k.len() as u64)));
        if !reps.iter().any(|r| content(r) == k) {
            reps.push(v.clone());
        }
        journal.push(v);
        agree(&pool, &model)?;
        if c.chance(1, 8) {
            // crash: the pool is rebuilt from a journal, in the order of another scan
            c.count("fault.crash_rebuild");
            let mut re: Vec<Val> = vec![];
            for v in &journal {
                re.push(if c.chance(1, 3) { same_content(c, &s, v)? } else { v.clone() });
            }
            shuffle(c, &mut re);
            pool = HashMap::default();
            for v in re {
                *pool.entry(PoolKey(v)).or_default() += 1;
            }
            agree(&pool, &model)?;
        }
        if c.chance(1, 6) {
            // one leaves
            let i = c.below(reps.len());
            let gone = reps.swap_remove(i);
            let k = content(&gone);
            let probe = same_content(c, &s, &gone)?;
            let n = pool.remove(&PoolKey(probe));
            ensure!(n == model.remove(&k), "pool", "the pool held {n:?} of {}", brief(&gone));
            journal.retain(|v| content(v) != k);
            agree(&pool, &model)?;
        }
    }
    c.nontrivial = model.len() > 1 || journal.len() > 1;
    Ok(())
}
fn agree(pool: &HashMap<PoolKey, usize, Fixed>, model: &BTreeMap<Vec<u8>, usize>) -> R {
    let got: BTreeMap<Vec<u8>, usize> = pool.iter().map(|(k, n)| (content(&k.0), *n)).collect();
    ensure!(pool.len() == model.len() && got == *model, "pool", "the pool holds {} values, {} different ones arrived", pool.len(), model.len());
    Ok(())
}
/// Ordered indexes.
fn c24_order(c: &mut Ctx) -> R {
    use std::cmp::Ordering;
    let s = swarm(c);
    fn ordered<T: Ord + Clone + std::fmt::Debug>(c: &mut Ctx, v: Vec<T>, key: &dyn Fn(&T) -> Vec<u8>) -> R {
        c.log(|| format!("indexed: {v:?}"));
        for a in &v {
            for b in &v {
                let w = key(a).cmp(&key(b));
                ensure!(a.cmp(b) == w && a.partial_cmp(b) == Some(w), "order", "{a:?} against {b:?} is {:?}, should be {w:?}", a.cmp(b));
                ensure!((a < b) == (w == Ordering::Less) && (a >= b) == (w != Ordering::Less), "order", "{a:?} < {b:?} is {}", a < b);
            }
        }
        let mut x = v.clone();
        x.sort();
        let mut y = v.clone();
        y.sort_by_key(|a| key(a));
        ensure!(x.iter().map(key).eq(y.iter().map(key)), "order", "sorting gives {x:?}");
        // an index that crashes and is filled again in another order lists the same
        // one by one: entries of one key are one line of an index
        let fill = |v: Vec<T>| -> Vec<Vec<u8>> {
            let mut set = BTreeSet::new();
            for x in v {
                set.insert(x);
            }
            set.iter().map(key).collect()
        };
        let keys: Vec<Vec<u8>> = fill(v.clone());
        let mut z = v;
        shuffle(c, &mut z);
        c.count("fault.crash_rebuild");
        let again: Vec<Vec<u8>> = fill(z);
        let want: Vec<Vec<u8>> = y.iter().map(key).collect::<BTreeSet<_>>().into_iter().collect();
        ensure!(keys == want && again == want, "index", "the index lists {} keys, {} different ones came", keys.len(), want.len());
        Ok(())
    }
    c.nontrivial = true;
    let n = 2 + c.below(7);
    let k = c.below(3);
    c.note(mix(n as u64, k as u64));
    match k {
        0 => {
            let mut v = vec![utxo(c, &s)];
            for _ in 0..n {
                let x = *c.pick(&v);
                v.push(match c.below(4) {
                    0 => UtxoId::new(*x.tx_id(), x.output_index().wrapping_add(1 << c.below(8))),
                    1 => {
                        let mut id: B32 = **x.tx_id();
                        id[c.below(32)] ^= 1 << c.below(8);
                        UtxoId::new(id.into(), byte(c))
                    }
                    2 => x,
                    _ => utxo(c, &s),
                });
            }
            ordered(c, v, &|u: &UtxoId| [&u.tx_id()[..], &[u.output_index()]].concat())
        }
        1 => {
            let mut v = vec![ptr(c)];
            for _ in 0..n {
                let x = *c.pick(&v);
                v.push(match c.below(4) {
                    0 => TxPointer::new(x.block_height(), x.tx_index() ^ (1 << c.below(16))),
                    1 => TxPointer::new(x.block_height() ^ (1 << c.below(32)), ptr(c).tx_index()),
                    2 => x,
                    _ => ptr(c),
                });
            }
            ordered(c, v, &|p: &TxPointer| [&p.block_height().to_be_bytes()[..], &p.tx_index().to_be_bytes()].concat())
        }
        _ => {
            // entries are ordered by key alone
            let mut v = vec![(id32(c, &s), id32(c, &s))];
            for _ in 0..n {
                let mut x = *c.pick(&v);
                match c.below(3) {
                    0 => x.0[c.below(32)] ^= 1 << c.below(8),
                    1 => x.1[c.below(32)] ^= 1 << c.below(8),
                    _ => x = (id32(c, &s), id32(c, &s)),
                }
                v.push(x);
            }
            ordered(c, v.iter().map(slot).collect(), &|x: &StorageSlot| x.key().to_vec())
        }
    }
}
/// Pools of checked transactions.
fn c24_checked(c: &mut Ctx) -> R {
    let s = swarm(c);
    let p = params(c);
    let k = kind(c);
    let m = valid_tx(c, &s, &p, 7, k);
    let mut ms = vec![m.clone()];
    for _ in 0..1 + c.below(3) {
        let mut e = c.pick(&ms).clone();
        field_edit(c, &s, &mut e);
        ms.push(e);
    }
    ms.push(m);
    let mut held: Vec<(Vec<u8>, CheckedTransaction)> = vec![];
    for m in &ms {
        for _ in 0..1 + c.below(2) {
            let v = same_content(c, &s, &Val::Tx(build(m)))?;
            let Val::Tx(t) = v else { continue };
            if let Ok(x) = t.into_checked_basic(7, &p) {
                let ck: CheckedTransaction = x.into();
                held.push((strict(m), ck.clone()));
            }
        }
    }
    for (ka, a) in &held {
        for (kb, b) in &held {
            ensure!((a == b) == (ka == kb), "checked", "checked transactions of {} content compare {}", if ka == kb { "the same" } else { "different" }, if a == b { "equal" } else { "unequal" });
            if ka == kb {
                ensure!(hash_of(a) == hash_of(b), "hash", "equal checked transactions hash differently");
            }
        }
    }
    let distinct: BTreeSet<&Vec<u8>> = held.iter().map(|x| &x.0).collect();
    let pool: std::collections::HashSet<CheckedTransaction, Fixed> = held.iter().map(|x| x.1.clone()).collect();
    ensure!(pool.len() == distinct.len(), "pool", "the pool holds {} checked transactions, {} different ones came", pool.len(), distinct.len());
    c.note(mix(held.len() as u64, distinct.len() as u64));
    c.nontrivial = distinct.len() > 1;
    Ok(())
}

// ------------------------------------------------------------------ C25
type Row = Vec<(&'static str, Option<Vec<u8>>)>;
trait Cell {
    fn cell(&self) -> Option<Vec<u8>>;
}
impl Cell for u64 {
    fn cell(&self) -> Option<Vec<u8>> {
        Some(self.to_be_bytes().to_vec())
    }
}
impl Cell for u8 {
    fn cell(&self) -> Option<Vec<u8>> {
        (*self as u64).cell()
    }
}
impl Cell for usize {
    fn cell(&self) -> Option<Vec<u8>> {
        (*self as u64).cell()
    }
}
impl Cell for bool {
    fn cell(&self) -> Option<Vec<u8>> {
        (*self as u64).cell()
    }
}
impl Cell for [u8] {
    fn cell(&self) -> Option<Vec<u8>> {
        Some(self.to_vec())
    }
}
impl Cell for Vec<u8> {
    fn cell(&self) -> Option<Vec<u8>> {
        Some(self.clone())
    }
}
macro_rules! cell32 { ($($t:ty),*) => { $(impl Cell for $t { fn cell(&self) -> Option<Vec<u8>> { Some(self[..].to_vec()) } })* } }
cell32!(Address, AssetId, Bytes32, ContractId, MessageId);
impl Cell for UtxoId {
    fn cell(&self) -> Option<Vec<u8>> {
        Some([&self.tx_id()[..], &[self.output_index()]].concat())
    }
}
impl Cell for TxPointer {
    fn cell(&self) -> Option<Vec<u8>> {
        Some([&self.block_height().to_be_bytes()[..], &self.tx_index().to_be_bytes()].concat())
    }
}
impl Cell for InstructionResult {
    fn cell(&self) -> Option<Vec<u8>> {
        Word::from(*self).cell()
    }
}
impl Cell for ScriptExecutionResult {
    fn cell(&self) -> Option<Vec<u8>> {
        let (g, w) = match self {
            ScriptExecutionResult::Success => (0u8, 0u64),
            ScriptExecutionResult::Revert => (0, 1),
            ScriptExecutionResult::Panic => (0, 2),
            ScriptExecutionResult::GenericFailure(v) => (1, *v),
        };
        Some([&[g][..], &w.to_be_bytes()].concat())
    }
}
impl<T: Cell + ?Sized> Cell for &T {
    fn cell(&self) -> Option<Vec<u8>> {
        (**self).cell()
    }
}
impl<T: Cell> Cell for Option<T> {
    fn cell(&self) -> Option<Vec<u8>> {
        self.as_ref().and_then(|x| x.cell())
    }
}
macro_rules! read {
    ($x:expr, $($n:ident),* $(,)?) => { vec![$((stringify!($n), $x.$n().cell())),*] };
}
fn read_input(i: &Input) -> Row {
    let mut r: Row = read!(
        i, utxo_id, input_owner, asset_id, contract_id, amount, witness_index, maturity, predicate_len, predicate_data_len,
        message_id, tx_pointer, input_data, input_predicate, input_predicate_data, balance_root, state_root, sender, recipient,
        nonce, is_coin, is_coin_signed, is_coin_predicate, is_message, is_message_signed, is_message_predicate, is_contract,
    );
    r.push(("predicate.0", i.predicate().and_then(|p| p.0.cell())));
    r.push(("predicate.1", i.predicate().and_then(|p| p.1.cell())));
    for (n, x) in [("repr", i.repr()), ("repr from", InputRepr::from(i))] {
        r.push((n, (x as u64).cell()));
    }
    r
}
/// The same row, from the fields.
fn want_input(i: &Input) -> Row {
    let mut r: Row = vec![];
    let (mut coin, mut pred, mut repr) = (false, false, 2u64);
    macro_rules! cols {
        ($($n:literal : $e:expr),* $(,)?) => {{ $(r.push(($n, $e.cell()));)* }};
    }
    match i {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
            cols!("utxo_id": utxo_id, "input_owner": owner, "asset_id": asset_id, "amount": amount, "witness_index": witness_index,
                "maturity": maturity, "tx_pointer": tx_pointer, "predicate_len": 0u64, "predicate_data_len": 0u64);
            coin = true;
            repr = 0;
        }
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => {
            cols!("utxo_id": utxo_id, "input_owner": owner, "asset_id": asset_id, "amount": amount, "maturity": maturity,
                "tx_pointer": tx_pointer, "predicate_len": predicate.len(), "predicate_data_len": predicate_data.len(),
                "input_predicate": predicate, "input_predicate_data": predicate_data, "predicate.0": predicate, "predicate.1": predicate_data);
            coin = true;
            pred = true;
            repr = 0;
        }
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => {
            cols!("utxo_id": utxo_id, "balance_root": balance_root, "state_root": state_root, "tx_pointer": tx_pointer, "contract_id": contract_id);
            repr = 1;
        }
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
            cols!("message_id": message_id, "sender": sender, "recipient": recipient, "amount": amount, "nonce": nonce,
                "witness_index": witness_index, "input_data": data, "asset_id": [0u8; 32][..], "predicate_len": 0u64, "predicate_data_len": 0u64);
        }
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => {
            cols!("message_id": message_id, "sender": sender, "recipient": recipient, "amount": amount, "nonce": nonce,
                "input_data": data, "asset_id": [0u8; 32][..], "predicate_len": predicate.len(), "predicate_data_len": predicate_data.len(),
                "input_predicate": predicate, "input_predicate_data": predicate_data, "predicate.0": predicate, "predicate.1": predicate_data);
            pred = true;
        }
    }
    let msg = repr == 2;
    cols!("is_coin": coin, "is_coin_signed": (coin && !pred), "is_coin_predicate": (coin && pred), "is_message": msg,
        "is_message_signed": (msg && !pred), "is_message_predicate": (msg && pred), "is_contract": (repr == 1),
        "repr": repr, "repr from": repr);
    r
}
fn read_output(o: &Output) -> Row {
    let mut r: Row = read!(
        o, asset_id, to, amount, input_index, balance_root, state_root, contract_id, recipient, is_coin, is_message, is_variable,
        is_contract, is_contract_created,
    );
    let mut m = *o;
    for (n, x) in [("repr", o.repr()), ("repr from", OutputRepr::from(o)), ("repr from mut", OutputRepr::from(&mut m))] {
        r.push((n, (x as u64).cell()));
    }
    r
}
fn want_output(o: &Output) -> Row {
    let mut r: Row = vec![];
    macro_rules! cols {
        ($($n:literal : $e:expr),* $(,)?) => {{ $(r.push(($n, $e.cell()));)* }};
    }
    let k = match o {
        Output::Coin { to, amount, asset_id } => {
            cols!("to": to, "amount": amount, "asset_id": asset_id);
            0u64
        }
        Output::Contract { input_index, balance_root, state_root } => {
            cols!("input_index": input_index, "balance_root": balance_root, "state_root": state_root);
            1
        }
        Output::Message { recipient, amount } => {
            cols!("recipient": recipient, "amount": amount);
            2
        }
        Output::Change { to, amount, asset_id } => {
            cols!("to": to, "amount": amount, "asset_id": asset_id);
            3
        }
        Output::Variable { to, amount, asset_id } => {
            cols!("to": to, "amount": amount, "asset_id": asset_id);
            4
        }
        Output::ContractCreated { contract_id, state_root } => {
            cols!("contract_id": contract_id, "state_root": state_root);
            5
        }
    };
    cols!("is_coin": (k == 0), "is_contract": (k == 1), "is_message": (k == 2), "is_variable": (k == 4), "is_contract_created": (k == 5),
        "repr": k, "repr from": k, "repr from mut": k);
    r
}
fn read_receipt(x: &Receipt) -> Row {
    read!(
        x, id, pc, is, to, to_address, amount, asset_id, gas, param1, param2, val, ptr, len, is_empty, digest, data, reason, ra, rb,
        rc, rd, result, gas_used, message_id, sender, recipient, nonce, contract_id,
    )
}
fn want_receipt(x: &Receipt) -> Row {
    let mut r: Row = vec![];
    macro_rules! cols {
        ($($n:ident),* $(,)?) => {{ $(r.push((stringify!($n), $n.cell()));)* }};
    }
    match x {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => cols!(id, to, amount, asset_id, gas, param1, param2, pc, is),
        Receipt::Return { id, val, pc, is } => cols!(id, val, pc, is),
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            cols!(id, ptr, len, digest, data, pc, is);
            r.push(("is_empty", (*len == 0).cell()));
        }
        Receipt::Panic { id, reason, pc, is, contract_id } => cols!(id, reason, pc, is, contract_id),
        Receipt::Revert { id, ra, pc, is } => cols!(id, ra, pc, is),
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => cols!(id, ra, rb, rc, rd, pc, is),
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            cols!(id, ra, rb, ptr, len, digest, data, pc, is);
            r.push(("is_empty", (*len == 0).cell()));
        }
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => cols!(id, to, amount, asset_id, pc, is),
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => {
            cols!(id, amount, asset_id, pc, is);
            r.push(("to_address", to.cell()));
        }
        Receipt::ScriptResult { result, gas_used } => cols!(result, gas_used),
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
            cols!(message_id, sender, recipient, amount, nonce, len, digest, data);
            r.push(("is_empty", (*len == 0).cell()));
        }
    }
    r
}
fn same_row(got: &Row, want: &Row, what: &dyn Fn() -> String) -> R {
    for (n, g) in got {
        let w = want.iter().find(|x| x.0 == *n).and_then(|x| x.1.clone());
        ensure!(*g == w, format!("row-{n}"), "{} is read as {:?}, should be {:?}: {}", n, g.as_ref().map(|b| hex(b)), w.map(|b| hex(&b)), what());
    }
    Ok(())
}
// ---- rows back to parts
fn enc_row(r: &Row) -> Vec<u8> {
    let mut b = vec![r.len() as u8];
    for (_, v) in r {
        match v {
            None => b.push(0),
            Some(x) => {
                b.push(1);
                b.extend((x.len() as u32).to_be_bytes());
                b.extend_from_slice(x);
            }
        }
    }
    b
}
fn dec_row(names: &Row, b: &[u8]) -> Row {
    let mut p = 1;
    let mut out = vec![];
    for (n, _) in names {
        if b[p] == 0 {
            p += 1;
            out.push((*n, None));
        } else {
            let l = u32::from_be_bytes([b[p + 1], b[p + 2], b[p + 3], b[p + 4]]) as usize;
            out.push((*n, Some(b[p + 5..p + 5 + l].to_vec())));
            p += 5 + l;
        }
    }
    out
}
struct Cols<'a>(&'a Row);
impl Cols<'_> {
    fn raw(&self, n: &str) -> Vec<u8> {
        self.0.iter().find(|x| x.0 == n).and_then(|x| x.1.clone()).unwrap_or_default()
    }
    fn b32(&self, n: &str) -> B32 {
        self.raw(n).try_into().unwrap_or([0; 32])
    }
    fn w(&self, n: &str) -> u64 {
        self.raw(n).try_into().map(u64::from_be_bytes).unwrap_or(0)
    }
    fn has(&self, n: &str) -> bool {
        self.0.iter().any(|x| x.0 == n && x.1.is_some())
    }
    fn utxo(&self) -> UtxoId {
        let b = self.raw("utxo_id");
        if b.len() != 33 {
            return UtxoId::default();
        }
        let mut id = [0; 32];
        id.copy_from_slice(&b[..32]);
        UtxoId::new(id.into(), b[32])
    }
    fn ptr(&self) -> TxPointer {
        let b = self.raw("tx_pointer");
        if b.len() != 6 {
            return TxPointer::default();
        }
        TxPointer::new(u32::from_be_bytes([b[0], b[1], b[2], b[3]]), u16::from_be_bytes([b[4], b[5]]))
    }
}
fn rebuild_input(r: &Row) -> Option<Input> {
    let k = Cols(r);
    let on = |n: &str| k.w(n) == 1;
    Some(if on("is_coin_signed") {
        Input::coin_signed(k.utxo(), k.b32("input_owner").into(), k.w("amount"), k.b32("asset_id").into(), k.ptr(), k.w("witness_index") as u8, k.w("maturity"))
    } else if on("is_coin_predicate") {
        Input::coin_predicate(
            k.utxo(),
            k.b32("input_owner").into(),
            k.w("amount"),
            k.b32("asset_id").into(),
            k.ptr(),
            k.w("maturity"),
            k.raw("input_predicate"),
            k.raw("input_predicate_data"),
        )
    } else if on("is_contract") {
        Input::contract(k.utxo(), k.b32("balance_root").into(), k.b32("state_root").into(), k.ptr(), k.b32("contract_id").into())
    } else if on("is_message_signed") {
        Input::message_signed(
            k.b32("message_id").into(),
            k.b32("sender").into(),
            k.b32("recipient").into(),
            k.w("amount"),
            k.w("nonce"),
            k.w("witness_index") as u8,
            k.raw("input_data"),
        )
    } else if on("is_message_predicate") {
        Input::message_predicate(
            k.b32("message_id").into(),
            k.b32("sender").into(),
            k.b32("recipient").into(),
            k.w("amount"),
            k.w("nonce"),
            k.raw("input_data"),
            k.raw("input_predicate"),
            k.raw("input_predicate_data"),
        )
    } else {
        return None;
    })
}
fn rebuild_output(r: &Row) -> Option<Output> {
    let k = Cols(r);
    let to = || -> Address { k.b32("to").into() };
    let asset = || -> AssetId { k.b32("asset_id").into() };
    Some(match k.w("repr") {
        0 => Output::coin(to(), k.w("amount"), asset()),
        1 => Output::contract(k.w("input_index") as u8, k.b32("balance_root").into(), k.b32("state_root").into()),
        2 => Output::message(k.b32("recipient").into(), k.w("amount")),
        3 => Output::change(to(), k.w("amount"), asset()),
        4 => Output::variable(to(), k.w("amount"), asset()),
        5 => Output::contract_created(k.b32("contract_id").into(), k.b32("state_root").into()),
        _ => return None,
    })
}
fn rebuild_receipt(kind: u8, r: &Row) -> Option<Receipt> {
    let k = Cols(r);
    let id = || -> ContractId { k.b32("id").into() };
    let cid = |n: &str| -> ContractId { k.b32(n).into() };
    let asset = || -> AssetId { k.b32("asset_id").into() };
    let (pc, is) = (k.w("pc"), k.w("is"));
    Some(match kind {
        0 => Receipt::call(id(), cid("to"), k.w("amount"), asset(), k.w("gas"), k.w("param1"), k.w("param2"), pc, is),
        1 => Receipt::ret(id(), k.w("val"), pc, is),
        2 => Receipt::return_data_with_len(id(), k.w("ptr"), k.w("len"), k.b32("digest").into(), k.raw("data"), pc, is),
        3 => {
            let p = Receipt::panic(id(), InstructionResult::from(k.w("reason")), pc, is);
            if k.has("contract_id") {
                p.with_panic_contract_id(Some(cid("contract_id")))
            } else {
                p
            }
        }
        4 => Receipt::revert(id(), k.w("ra"), pc, is),
        5 => Receipt::log(id(), k.w("ra"), k.w("rb"), k.w("rc"), k.w("rd"), pc, is),
        6 => Receipt::log_data_with_len(id(), k.w("ra"), k.w("rb"), k.w("ptr"), k.w("len"), k.b32("digest").into(), k.raw("data"), pc, is),
        7 => Receipt::transfer(id(), cid("to"), k.w("amount"), asset(), pc, is),
        8 => Receipt::transfer_out(id(), k.b32("to_address").into(), k.w("amount"), asset(), pc, is),
        9 => {
            let b = k.raw("result");
            let w = u64::from_be_bytes(b.get(1..9)?.try_into().ok()?);
            let x = if b[0] == 1 { ScriptExecutionResult::GenericFailure(w) } else { ScriptExecutionResult::from(w) };
            Receipt::script_result(x, k.w("gas_used"))
        }
        10 => Receipt::message_out_with_len(
            k.b32("message_id").into(),
            k.b32("sender").into(),
            k.b32("recipient").into(),
            k.w("amount"),
            k.b32("nonce").into(),
            k.w("len"),
            k.b32("digest").into(),
            k.raw("data"),
        ),
        _ => return None,
    })
}
fn receipt_kind(r: &Receipt) -> u8 {
    match r {
        Receipt::Call { .. } => 0,
        Receipt::Return { .. } => 1,
        Receipt::ReturnData { .. } => 2,
        Receipt::Panic { .. } => 3,
        Receipt::Revert { .. } => 4,
        Receipt::Log { .. } => 5,
        Receipt::LogData { .. } => 6,
        Receipt::Transfer { .. } => 7,
        Receipt::TransferOut { .. } => 8,
        Receipt::ScriptResult { .. } => 9,
        Receipt::MessageOut { .. } => 10,
    }
}
/// Content, with what equality of receipts leaves out.
fn full_receipt(r: &Receipt) -> Vec<u8> {
    let mut b = strict_receipt(r);
    if let Receipt::Panic { contract_id, .. } = r {
        b.extend(contract_id.cell().unwrap_or_default());
    }
    b
}
enum Event {
    Tx(M),
    Receipt(Receipt),
}
fn queries<T: Executable>(t: &T, m: &M) -> R {
    let assets: Vec<B32> = m.inputs.iter().filter_map(in_asset).map(|a| *a).collect();
    let got: Vec<B32> = t.input_asset_ids().map(|a| **a).collect();
    ensure!(got == assets, "query-assets", "input assets are {:?}, should be {:?}", got.iter().map(|x| hex(x)).collect::<Vec<_>>(), assets.iter().map(|x| hex(x)).collect::<Vec<_>>());
    let once = |v: &[B32]| -> (usize, BTreeSet<B32>) { (v.len(), v.iter().copied().collect()) };
    let u: Vec<B32> = t.input_asset_ids_unique().map(|a| **a).collect();
    let w: BTreeSet<B32> = assets.iter().copied().collect();
    ensure!(once(&u) == (w.len(), w.clone()), "query-assets-unique", "{} unique input assets, should be {}", u.len(), w.len());
    let cs: Vec<B32> = t.input_contracts().map(|x| **x).collect();
    let w: BTreeSet<B32> = m.inputs.iter().filter_map(|i| if let Input::Contract { contract_id, .. } = i { Some(**contract_id) } else { None }).collect();
    ensure!(once(&cs) == (w.len(), w.clone()), "query-contracts", "{} input contracts, should be {}", cs.len(), w.len());
    let owners = m.inputs.iter().all(|i| match i {
        Input::CoinPredicate { owner: o, predicate, .. } | Input::MessagePredicate { recipient: o, predicate, .. } => **o == predicate_owner(predicate),
        _ => true,
    });
    ensure!(t.check_predicate_owners() == owners, "query-owners", "predicate owners are reported {}", t.check_predicate_owners());
    for i in &m.inputs {
        if let Input::CoinPredicate { owner: o, predicate, .. } | Input::MessagePredicate { recipient: o, predicate, .. } = i {
            let w = predicate_owner(predicate);
            ensure!(*Input::predicate_owner(predicate) == w, "query-owners", "owner of a predicate is {}, should be {}", hex(&*Input::predicate_owner(predicate)), hex(&w));
            ensure!(Input::is_predicate_owner_valid(o, predicate) == (**o == w), "query-owners", "owner {o:?} of a predicate is judged wrongly");
        }
    }
    Ok(())
}
/// The parts of a transaction read by an explorer, as stored rows.
fn read_tx(t: &Transaction, m: &M) -> R<Vec<(u8, Vec<u8>)>> {
    use fuel_tx::field::*;
    let mut rows = vec![];
    let k = m.kind;
    let flags = (t.is_script(), t.is_create(), t.is_mint());
    let want = (k == Kind::Script, k == Kind::Create, k == Kind::Mint);
    ensure!(flags == want, "kind", "a {k:?} says script, create, mint: {flags:?}");
    ensure!((t.as_script().is_some(), t.as_create().is_some(), t.as_mint().is_some()) == want, "kind", "a {k:?} is offered as another kind");
    let mut x = t.clone();
    let muts = (x.as_script_mut().is_some(), x.as_create_mut().is_some(), x.as_mint_mut().is_some());
    ensure!(muts == want, "kind", "a {k:?} is offered mutably as another kind");
    ensure!(TransactionRepr::from(t) as u64 == k as u64, "kind", "a {k:?} has representation {:?}", TransactionRepr::from(t));
    let head = |what: &str, ok: bool| -> R {
        ensure!(ok, "header", "{what} of a {k:?} reads differently from its content");
        Ok(())
    };
    macro_rules! common {
        ($t:expr) => {{
            head("gas price", *$t.gas_price() == m.gas_price && $t.price() == m.gas_price)?;
            head("gas limit", *$t.gas_limit() == m.gas_limit)?;
            head("maturity", *$t.maturity() == m.maturity)?;
            head("inputs", *$t.inputs() == m.inputs)?;
            head("outputs", *$t.outputs() == m.outputs)?;
            head("witnesses", $t.witnesses().iter().map(|w| w.as_ref()).eq(m.witnesses.iter().map(|w| &w[..])))?;
            head("witnesses", $t.witnesses().iter().map(|w| w.as_vec()).eq(m.witnesses.iter()))?;
            head("witnesses", $t.witnesses().iter().map(|w| w.clone().into_inner()).eq(m.witnesses.iter().cloned()))?;
            queries($t, m)?;
        }};
    }
    match t {
        Transaction::Script(t) => {
            common!(t);
            head("limit", t.limit() == m.gas_limit)?;
            head("receipts root", **t.receipts_root() == m.receipts_root)?;
            head("script", *t.script() == m.script)?;
            head("script data", *t.script_data() == m.data)?;
        }
        Transaction::Create(t) => {
            common!(t);
            head("bytecode length", *t.bytecode_length() == m.bytecode_length)?;
            head("bytecode witness index", *t.bytecode_witness_index() == m.bytecode_witness_index)?;
            head("salt", **t.salt() == m.salt)?;
            head("storage slots", t.storage_slots().iter().map(|s| (**s.key(), **s.value())).eq(m.slots.iter().copied()))?;
            for (s, w) in t.storage_slots().iter().zip(&m.slots) {
                let b = Bytes64::from(s);
                head("storage slot bytes", b[..32] == w.0 && b[32..] == w.1)?;
                head("storage slot bytes", StorageSlot::from(&b) == *s)?;
            }
        }
        Transaction::Mint(t) => {
            let p = t.tx_pointer();
            head("tx pointer", (p.block_height(), p.tx_index()) == m.tx_pointer)?;
            head("outputs", *t.outputs() == m.outputs)?;
        }
    }
    let (ins, outs): (&[Input], &[Output]) = match t {
        Transaction::Script(t) => (t.inputs(), t.outputs()),
        Transaction::Create(t) => (t.inputs(), t.outputs()),
        Transaction::Mint(t) => (&[], t.outputs()),
    };
    for (i, w) in ins.iter().zip(&m.inputs) {
        let r = read_input(i);
        same_row(&r, &want_input(w), &|| Item::Input(w.clone()).describe())?;
        rows.push((0, enc_row(&r)));
    }
    for (o, w) in outs.iter().zip(&m.outputs) {
        let r = read_output(o);
        same_row(&r, &want_output(w), &|| format!("{w:?}"))?;
        rows.push((1, enc_row(&r)));
    }
    Ok(rows)
}
/// One edit of a transaction in place, of one thing, by one of the ways there are.
fn edit_in_place(c: &mut Ctx, s: &Swarm, t: &mut Transaction, m: &mut M) -> R<&'static str> {
    use fuel_tx::field::*;
    let w = word(c);
    let way = c.below(3);
    macro_rules! common {
        ($t:expr) => {
            match c.below(10) {
                0 => {
                    if way == 0 { $t.set_gas_price(w) } else { *$t.gas_price_mut() = w }
                    m.gas_price = w;
                    Some("gas price")
                }
                1 => {
                    if way == 0 { $t.set_gas_limit(w) } else { *$t.gas_limit_mut() = w }
                    m.gas_limit = w;
                    Some("gas limit")
                }
                2 => {
                    if way == 0 { $t.set_maturity(w) } else { *$t.maturity_mut() = w }
                    m.maturity = w;
                    Some("maturity")
                }
                3 if way < 2 => {
                    let i = input(c, s);
                    if way == 0 { $t.add_input(i.clone()) } else { $t.inputs_mut().push(i.clone()) }
                    m.inputs.push(i);
                    Some("one more input")
                }
                3 | 4 if !m.inputs.is_empty() => {
                    let k = c.below(m.inputs.len());
                    if way == 0 {
                        $t.inputs_mut().remove(k);
                        m.inputs.remove(k);
                    } else {
                        let i = input(c, s);
                        $t.inputs_mut()[k] = i.clone();
                        m.inputs[k] = i;
                    }
                    Some("an input")
                }
                5 if way < 2 => {
                    let b = blob(c, s);
                    if way == 0 { $t.add_witness(b.clone().into()) } else { $t.witnesses_mut().push(b[..].into()) }
                    m.witnesses.push(b);
                    Some("one more witness")
                }
                5 | 6 if !m.witnesses.is_empty() => {
                    let k = c.below(m.witnesses.len());
                    let b = byte(c);
                    let x = &mut $t.witnesses_mut()[k];
                    match way {
                        0 => {
                            x.as_vec_mut().push(b);
                            m.witnesses[k].push(b);
                        }
                        1 => {
                            x.extend([b, b ^ 1]);
                            m.witnesses[k].extend([b, b ^ 1]);
                        }
                        _ => {
                            if let Some(y) = x.as_mut().first_mut() {
                                *y ^= b;
                            }
                            if let Some(y) = m.witnesses[k].first_mut() {
                                *y ^= b;
                            }
                        }
                    }
                    Some("a witness")
                }
                7 => {
                    let k = c.below(4);
                    let (u, a, p) = (utxo(c, s), AssetId::from(id32(c, s)), ptr(c));
                    let (_, pk, owner) = key(k);
                    let at = m.witnesses.len() as u8;
                    if way == 0 {
                        $t.add_unsigned_coin_input(u, &pk, w, a, p, w ^ 1);
                        m.inputs.push(Input::coin_signed(u, owner.into(), w, a, p, at, w ^ 1));
                    } else {
                        let (f, to, d) = (Address::from(id32(c, s)), Address::from(id32(c, s)), short_blob(c, s));
                        $t.add_unsigned_message_input(f, to, w, w ^ 1, d.clone());
                        let id = down_id(&Msg { sender: *f, recipient: *to, nonce: w, amount: w ^ 1, data: d.clone() });
                        m.inputs.push(Input::message_signed(id.into(), f, to, w ^ 1, w, at, d));
                    }
                    m.witnesses.push(vec![]);
                    Some("an unsigned input")
                }
                _ => None,
            }
        };
    }
    let out = |c: &mut Ctx, v: &mut Vec<Output>, m: &mut M| {
        if c.chance(1, 2) || v.is_empty() {
            let o = output(c, s);
            v.push(o);
            m.outputs.push(o);
        } else {
            let k = c.below(v.len());
            v.swap_remove(k);
            m.outputs.swap_remove(k);
        }
        "outputs"
    };
    Ok(match t {
        Transaction::Script(t) => match common!(t) {
            Some(x) => x,
            None => match c.below(4) {
                0 => {
                    *t.receipts_root_mut() = id32(c, s).into();
                    m.receipts_root = **t.receipts_root();
                    "receipts root"
                }
                1 => {
                    t.script_mut().push(w as u8);
                    m.script.push(w as u8);
                    "script"
                }
                2 => {
                    t.script_data_mut().push(w as u8);
                    m.data.push(w as u8);
                    "script data"
                }
                _ => out(c, t.outputs_mut(), m),
            },
        },
        Transaction::Create(t) => match common!(t) {
            Some(x) => x,
            None => match c.below(5) {
                0 => {
                    *t.bytecode_length_mut() = w;
                    m.bytecode_length = w;
                    "bytecode length"
                }
                1 => {
                    *t.bytecode_witness_index_mut() = w as u8;
                    m.bytecode_witness_index = w as u8;
                    "bytecode witness index"
                }
                2 => {
                    let x = id32(c, s);
                    *t.salt_mut() = x.into();
                    m.salt = x;
                    "salt"
                }
                3 => {
                    let x = (id32(c, s), id32(c, s));
                    t.storage_slots_mut().push(slot(&x));
                    m.slots.push(x);
                    "storage slots"
                }
                _ => out(c, t.outputs_mut(), m),
            },
        },
        Transaction::Mint(t) => {
            if c.chance(1, 2) {
                let p = ptr(c);
                *t.tx_pointer_mut() = p;
                m.tx_pointer = (p.block_height(), p.tx_index());
                "tx pointer"
            } else {
                out(c, t.outputs_mut(), m)
            }
        }
    })
}
fn c25_explorer(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut chain: Vec<Event> = vec![];
    for _ in 0..1 + c.below(4) {
        c.mark();
        if c.chance(1, 2) {
            let mut m = any_tx(c, &s);
            // some predicates belong to their owners
            for i in m.inputs.iter_mut() {
                if c.chance(1, 2) {
                    if let Input::CoinPredicate { owner: o, predicate, .. } | Input::MessagePredicate { recipient: o, predicate, .. } = i {
                        *o = predicate_owner(predicate).into();
                    }
                }
            }
            c.note(shape(&m));
            c.log(|| format!("block holds {}", describe(&m)));
            chain.push(Event::Tx(m));
        } else {
            let r = receipt(c, &s);
            c.note(receipt_kind(&r) as u64);
            c.log(|| format!("block holds {r:?}"));
            chain.push(Event::Receipt(r));
        }
    }
    let mut net = Net::swarm(c, false);
    // rows on file: event, kind, row
    let mut log = Log::default();
    let mut have: BTreeSet<usize> = BTreeSet::new();
    let names_in: Row = read_input(&Input::default());
    let names_out: Row = read_output(&Output::default());
    let names_rc: Row = read_receipt(&Receipt::ret(Default::default(), 0, 0, 0));
    let mut rounds = 0;
    while have.len() < chain.len() {
        rounds += 1;
        if rounds >= 4 {
            net.heal();
        }
        ensure!(rounds < 10, "no-progress", "events still missing after the network healed");
        for (i, e) in chain.iter().enumerate() {
            if have.contains(&i) && !c.chance(1, 5) {
                continue;
            }
            let (mut it, ty) = match e {
                Event::Tx(m) => (Item::of_model(Ty::Tx, m), 0),
                Event::Receipt(r) => (Item::Receipt(r.clone()), 1),
            };
            let mut k = codec_for(c, &it);
            if matches!(e, Event::Receipt(Receipt::Panic { .. })) && k == Codec::Wire {
                // the binary form does not carry the contract of a panic
                k = Codec::Json;
            }
            let b = ser(&mut it, k)?;
            net.send(c, 0, 1, b, (i * 6 + ty * 3 + k as usize) as u64);
        }
        while let Some(pk) = net.next(c) {
            let tag = pk.tag as usize;
            let (i, ty, k) = (tag / 6, tag / 3 % 2, codec_at(pk.tag % 3));
            let it = de(if ty == 0 { Ty::Tx } else { Ty::Receipt }, k, &pk.bytes).or_else(|e| viol("relay", format!("a relayed event is refused: {e}")))?;
            let rows = match (&it, &chain[i]) {
                (Item::Tx(t), Event::Tx(m)) => {
                    let mut t = t.clone();
                    if c.chance(1, 3) {
                        t.precompute();
                    }
                    let rows = read_tx(&t, m)?;
                    // a wallet goes on editing its copy
                    if c.chance(1, 3) {
                        let mut m = m.clone();
                        for _ in 0..1 + c.below(3) {
                            if c.chance(1, 8) {
                                // the output it spends turns out to be another transaction's
                                let (mut u, x) = (utxo(c, &s), id32(c, &s));
                                let at = u.output_index();
                                u.replace_tx_id(x.into());
                                ensure!(
                                    **u.tx_id() == x && u.output_index() == at,
                                    "edited",
                                    "after naming {} the output reads {u:?} (position was {at})",
                                    hex(&x)
                                );
                            }
                            let what = edit_in_place(c, &s, &mut t, &mut m)?;
                            c.log(|| format!("edited in place: {what}"));
                            c.note(hash_bytes(what.as_bytes()));
                            if c.chance(1, 4) {
                                t.precompute();
                            }
                            if let Err(mut e) = read_tx(&t, &m) {
                                e.msg = format!("after an edit of the {what}: {}", e.msg);
                                return Err(e);
                            }
                        }
                    }
                    rows
                }
                (Item::Receipt(r), Event::Receipt(w)) => {
                    let row = read_receipt(r);
                    same_row(&row, &want_receipt(w), &|| format!("{w:?}"))?;
                    if c.chance(1, 2) {
                        // the contract of a panic is set, replaced and taken away; other receipts have none
                        let (mut r, mut w) = (r.clone(), w.clone());
                        for _ in 0..1 + c.below(3) {
                            let id = if c.chance(1, 2) { None } else { Some(ContractId::from(id32(c, &s))) };
                            r = r.with_panic_contract_id(id);
                            if let Receipt::Panic { contract_id, .. } = &mut w {
                                *contract_id = id;
                            }
                            same_row(&read_receipt(&r), &want_receipt(&w), &|| format!("{w:?} (contract set to {id:?})"))?;
                        }
                    }
                    vec![(2 + receipt_kind(w), enc_row(&row))]
                }
                _ => return viol("relay", "an event arrives as another kind of event"),
            };
            if have.insert(i) {
                for (k, b) in rows {
                    let mut rec = vec![i as u8, k];
                    rec.extend(b);
                    log.append(&rec);
                }
                log.append(&[i as u8, 255]);
                if c.chance(1, 2) {
                    log.sync();
                }
            }
            if !net.healed && c.chance(1, 8) {
                log.crash(c);
                // events without their end mark are fetched again
                let recs = log.records();
                have = recs.iter().filter(|r| r[1] == 255).map(|r| r[0] as usize).collect();
                let mut clean = Log::default();
                recs.iter().filter(|r| have.contains(&(r[0] as usize))).for_each(|r| clean.append(r));
                clean.sync();
                log = clean;
            }
        }
        c.tick(10);
    }
    c.nontrivial = true;
    // parts rebuilt from rows are the parts sent
    let recs = log.records();
    for (i, e) in chain.iter().enumerate() {
        let mine: Vec<&Vec<u8>> = recs.iter().filter(|r| r[0] as usize == i && r[1] != 255).collect();
        match e {
            Event::Tx(m) => {
                let ins: Vec<Input> = mine.iter().filter(|r| r[1] == 0).filter_map(|r| rebuild_input(&dec_row(&names_in, &r[2..]))).collect();
                let outs: Vec<Output> = mine.iter().filter(|r| r[1] == 1).filter_map(|r| rebuild_output(&dec_row(&names_out, &r[2..]))).collect();
                ensure!(ins.len() == m.inputs.len() && outs.len() == m.outputs.len(), "rebuild", "{} inputs and {} outputs come back from rows, {} and {} were sent", ins.len(), outs.len(), m.inputs.len(), m.outputs.len());
                for (a, b) in ins.iter().zip(&m.inputs) {
                    ensure!(strict_input(a) == strict_input(b), "rebuild-input", "rows give {}, sent was {}", Item::Input(a.clone()).describe(), Item::Input(b.clone()).describe());
                }
                for (a, b) in outs.iter().zip(&m.outputs) {
                    ensure!(Item::Output(*a).strict() == Item::Output(*b).strict(), "rebuild-output", "rows give {a:?}, sent was {b:?}");
                }
                // and a transaction assembled from the parts is the transaction sent
                let mut n = m.clone();
                n.inputs = ins;
                n.outputs = outs;
                let t = build(&n);
                ensure!(strict(&snap(&t)) == strict(m), "rebuild-tx", "a transaction assembled from rows differs: {} for {}", describe(&snap(&t)), describe(m));
            }
            Event::Receipt(w) => {
                ensure!(mine.len() == 1, "rebuild", "{} rows for one receipt", mine.len());
                let got = rebuild_receipt(mine[0][1] - 2, &dec_row(&names_rc, &mine[0][2..]));
                ensure!(got.as_ref().map(full_receipt) == Some(full_receipt(w)), "rebuild-receipt", "rows give {got:?}, sent was {w:?}");
            }
        }
    }
    Ok(())
}
