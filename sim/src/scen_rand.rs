//! C26: values drawn from a random source. C27: transactions drawn from factories.
use crate::core::*;
use crate::gen::{describe, shape};
use crate::item::Item;
use crate::model::*;
use crate::scen_id::hex;
use crate::Scenario;
use factory::TransactionFactory;
use fuel_tx::*;
use rand::distributions::Standard;
use rand::prelude::Distribution;
use rand::{Rng as _, RngCore};
use std::cell::RefCell;
use std::rc::Rc;

pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        id: "C26",
        f: c26_draws,
        quick: 600_000,
        what: "workers that generate test data draw values from simulated random sources in seeded interleavings; sources get stuck for a while, workers crash and redraw from their last checkpoint, and a second process repeats the whole script in another order; values are compared with those drawn first and, over many draws, every bit must move and fields must not follow each other",
        real: "Distribution of Witness, UtxoId, TxPointer, StorageSlot",
        stub: "random sources (simulated stream with faults), checkpoints (simulated)",
    },
    Scenario {
        id: "C27",
        f: c27_factories,
        quick: 30_000,
        what: "parties that run transaction factories from one seed, or take turns at one source, in seeded interleavings and by every way a factory offers; parties crash and start again, the source gets stuck for a while; what they make is compared with what the first made, and every transaction with its keys",
        real: "TransactionFactory, TransactionBuilder, signing, signature check, codec",
        stub: "random source (simulated stream with faults)",
    }]
}

/// A stream of words named by a seed; it can be resumed at any position.
#[derive(Clone)]
struct Source {
    seed: u64,
    pos: u64,
    /// words in this range are all the same (a source that is stuck for a while)
    stuck: (u64, u64, u64),
}
impl Source {
    fn at(&self, pos: u64) -> Source {
        Source { pos, ..self.clone() }
    }
}
impl RngCore for Source {
    fn next_u64(&mut self) -> u64 {
        let p = self.pos;
        self.pos += 1;
        if p >= self.stuck.0 && p < self.stuck.1 {
            return self.stuck.2;
        }
        let mut z = self.seed.wrapping_add((p + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for ch in b.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&w[..ch.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Witness,
    Utxo,
    Ptr,
    Slot,
}
const KINDS: [Kind; 4] = [Kind::Witness, Kind::Utxo, Kind::Ptr, Kind::Slot];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    Gen,
    Sample,
    Iter,
    Dyn,
}
const WAYS: [Way; 4] = [Way::Gen, Way::Sample, Way::Iter, Way::Dyn];
/// one draw by one of the ways there are, as bytes
fn draw(k: Kind, way: Way, r: &mut Source) -> Vec<u8> {
    fn by<T>(way: Way, r: &mut Source) -> T
    where
        Standard: Distribution<T>,
    {
        match way {
            Way::Gen => r.gen(),
            Way::Sample => Standard.sample(r),
            Way::Iter => r.sample_iter(Standard).next().expect("endless"),
            Way::Dyn => {
                let d: &mut dyn RngCore = r;
                Standard.sample(d)
            }
        }
    }
    match k {
        Kind::Witness => by::<Witness>(way, r).as_ref().to_vec(),
        Kind::Utxo => {
            let u: UtxoId = by(way, r);
            [&u.tx_id()[..], &[u.output_index()]].concat()
        }
        Kind::Ptr => {
            let p: TxPointer = by(way, r);
            [&p.block_height().to_be_bytes()[..], &p.tx_index().to_be_bytes()].concat()
        }
        Kind::Slot => {
            let s: StorageSlot = by(way, r);
            [&s.key()[..], &s.value()[..]].concat()
        }
    }
}

fn c26_draws(c: &mut Ctx) -> R {
    if c.chance(1, 12) {
        return c26_spread(c);
    }
    struct Worker {
        src: Source,
        /// what was drawn, from where
        log: Vec<(Kind, u64, Vec<u8>)>,
        synced: usize,
    }
    let n = 1 + c.below(3);
    let mut seeds: Vec<u64> = vec![];
    let mut ws: Vec<Worker> = (0..n)
        .map(|i| {
            // two workers may start from one seed
            let seed = if i > 0 && c.chance(1, 4) { seeds[0] } else { c.draw(0) };
            seeds.push(seed);
            let from = c.draw(40);
            let stuck = if c.chance(1, 2) {
                c.count("fault.stuck_source");
                (from, from + 1 + c.draw(20), *c.pick(&[0, u64::MAX, 1, 0xaaaa_aaaa_5555_5555]))
            } else {
                (0, 0, 0)
            };
            Worker { src: Source { seed, pos: 0, stuck }, log: vec![], synced: 0 }
        })
        .collect();
    c.log(|| format!("{n} workers with seeds {seeds:x?}"));
    let steps = c.range(4, 24);
    for _ in 0..steps {
        c.mark();
        c.tick(1);
        let i = c.below(n);
        match c.below(8) {
            0 => ws[i].synced = ws[i].log.len(),
            1 => {
                // crash: back to the checkpoint, and the same draws again
                c.count("fault.crash");
                c.nontrivial = true;
                let w = &mut ws[i];
                let lost = w.log.split_off(w.synced);
                if let Some((_, pos, _)) = lost.first() {
                    w.src = w.src.at(*pos);
                }
                for (k, pos, v) in lost {
                    let way = *c.pick(&WAYS);
                    let got = draw(k, way, &mut w.src);
                    ensure!(got == v, "redrawn", "worker {i} redraws a {k:?} ({way:?}) at position {pos} as {}, first it was {}", hex(&got), hex(&v));
                    w.log.push((k, pos, v));
                }
                c.log(|| format!("worker {i} crashed and has redrawn"));
            }
            _ => {
                let k = *c.pick(&KINDS);
                let way = *c.pick(&WAYS);
                let w = &mut ws[i];
                let pos = w.src.pos;
                let v = draw(k, way, &mut w.src);
                c.note(mix(k as u64, v.len() as u64));
                c.log(|| format!("worker {i} draws a {k:?} ({way:?}) at {pos}: {}", hex(&v)));
                ensure!(w.src.pos > pos, "not-drawn", "a {k:?} was made without drawing from the source: {}", hex(&v));
                ensure!(k != Kind::Witness || v.len() < 512, "witness-length", "a drawn witness has {} bytes", v.len());
                w.log.push((k, pos, v));
            }
        }
    }
    // the whole script again, worker by worker
    c.nontrivial = true;
    for i in (0..n).rev() {
        let mut src = ws[i].src.at(0);
        for (k, pos, v) in &ws[i].log {
            let way = *c.pick(&WAYS);
            ensure!(src.pos == *pos, "repeat-position", "the repetition of worker {i} is at {} where the first was at {pos}", src.pos);
            let got = draw(*k, way, &mut src);
            ensure!(got == *v, "repeated", "the repetition of worker {i} draws a {k:?} ({way:?}) as {}, first it was {}", hex(&got), hex(v));
        }
    }
    Ok(())
}

/// Over many draws every bit moves and no field follows another.
fn c26_spread(c: &mut Ctx) -> R {
    let k = *c.pick(&KINDS);
    let way = *c.pick(&WAYS);
    let mut src = Source { seed: c.draw(0), pos: c.draw(1 << 40), stuck: (0, 0, 0) };
    let n = if k == Kind::Witness { 320 } else { 128 };
    c.nontrivial = true;
    c.note(k as u64 + 100);
    c.tick(n);
    let vs: Vec<Vec<u8>> = (0..n).map(|_| draw(k, way, &mut src)).collect();
    c.log(|| format!("{n} draws of {k:?} from {:x}", src.seed));
    let mut d: Vec<&Vec<u8>> = vs.iter().filter(|v| k != Kind::Witness || v.len() >= 8).collect();
    let distinct = d.len();
    d.sort();
    d.dedup();
    ensure!(d.len() == distinct, "repeated-value", "{} of {distinct} draws of a {k:?} are repetitions", distinct - d.len());
    let width = if k == Kind::Witness {
        let (lo, hi) = (vs.iter().map(|v| v.len()).min().unwrap_or(0), vs.iter().map(|v| v.len()).max().unwrap_or(0));
        ensure!(lo < 64 && (448..512).contains(&hi), "witness-lengths", "{n} drawn witnesses have between {lo} and {hi} bytes");
        ensure!((0..8).all(|r| vs.iter().any(|v| v.len() % 8 == r)), "witness-lengths", "some length modulo eight never comes");
        for v in vs.iter().filter(|v| v.len() >= 16) {
            ensure!(!v.windows(10).any(|w| w.iter().all(|b| *b == w[0])), "witness-unfilled", "part of a drawn witness is not filled: {}", hex(v));
            ensure!(v[..8] != v[v.len() - 8..] || v.len() == 8, "witness-repeats", "a drawn witness ends as it begins: {}", hex(v));
        }
        // the last bytes, which padding would hide, also for every length modulo eight
        for r in 0..8 {
            let of: Vec<&Vec<u8>> = vs.iter().filter(|v| v.len() % 8 == r && v.len() >= 8).collect();
            for back in 1..=8 {
                ensure!(
                    of.len() < 12 || of.iter().any(|v| v[v.len() - back] != of[0][of[0].len() - back]),
                    "witness-tail",
                    "byte {back} from the end is {:#04x} in all of {} drawn witnesses of {r} bytes modulo eight",
                    of[0][of[0].len() - back],
                    of.len()
                );
            }
        }
        for back in 1..=8 {
            spread_bits(k, "from the end", back, vs.iter().filter(|v| v.len() >= 8).map(|v| v[v.len() - back]))?;
        }
        32
    } else {
        vs[0].len()
    };
    let vs: Vec<&Vec<u8>> = vs.iter().filter(|v| v.len() >= width).collect();
    for i in 0..width {
        spread_bits(k, "", i, vs.iter().map(|v| v[i]))?;
        for j in 0..i {
            let x = vs[0][i] ^ vs[0][j];
            let s = vs[0][i].wrapping_sub(vs[0][j]);
            ensure!(
                vs.iter().any(|v| v[i] ^ v[j] != x) && vs.iter().any(|v| v[i].wrapping_sub(v[j]) != s),
                "fields-follow",
                "byte {i} of a drawn {k:?} always follows byte {j}"
            );
        }
    }
    Ok(())
}
fn spread_bits(k: Kind, from: &str, i: usize, it: impl Iterator<Item = u8>) -> R {
    let (and, or) = it.fold((0xffu8, 0u8), |(a, o), b| (a & b, o | b));
    ensure!(and == 0 && or == 0xff, "bits-fixed", "byte {i} {from} of a drawn {k:?}: bits {and:#04x} are always set and {:#04x} never", !or);
    Ok(())
}

// ------------------------------------------------------------------ C27
/// A source several factories take turns at.
#[derive(Clone)]
struct Shared(Rc<RefCell<Source>>);
impl RngCore for Shared {
    fn next_u32(&mut self) -> u32 {
        self.0.borrow_mut().next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.borrow_mut().next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.0.borrow_mut().fill_bytes(b)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
type Made = (Item, Vec<B32>);
/// a factory of any kind, over any source
enum Plant<R: rand::Rng> {
    Script(TransactionFactory<R, Script>),
    Create(TransactionFactory<R, Create>),
    Mint(TransactionFactory<R, Mint>),
}
impl<R: rand::Rng> Plant<R> {
    fn over(k: Kind3, r: R) -> Self {
        match k {
            Kind3::Script => Plant::Script(r.into()),
            Kind3::Create => Plant::Create(r.into()),
            Kind3::Mint => Plant::Mint(r.into()),
        }
    }
    /// the next transaction, by one of the ways there are; keys only where the way yields them
    fn make(&mut self, way: usize) -> (Item, Option<Vec<B32>>) {
        let pks = |ks: &Vec<fuel_crypto::SecretKey>| ks.iter().map(|k| owner_of(&fuel_crypto::PublicKey::from(k)[..])).collect();
        macro_rules! by {
            ($f:ident, $v:ident) => {
                match way {
                    0 => {
                        let (t, k) = $f.transaction_with_keys();
                        (Item::$v(t), Some(pks(&k)))
                    }
                    1 => {
                        let (t, k) = $f.next().expect("endless");
                        (Item::$v(t), Some(pks(&k)))
                    }
                    _ => (Item::$v($f.transaction()), None),
                }
            };
        }
        match self {
            Plant::Script(f) => by!(f, Script),
            Plant::Create(f) => by!(f, Create),
            Plant::Mint(f) => (Item::Mint(if way == 1 { f.next().expect("endless") } else { f.transaction() }), Some(vec![])),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind3 {
    Script,
    Create,
    Mint,
}
fn from_seed(k: Kind3, seed: u64) -> Plant<rand::rngs::StdRng> {
    match k {
        Kind3::Script => Plant::Script(TransactionFactory::<_, Script>::from_seed(seed)),
        Kind3::Create => Plant::Create(TransactionFactory::<_, Create>::from_seed(seed)),
        Kind3::Mint => Plant::Mint(TransactionFactory::<_, Mint>::from_seed(seed)),
    }
}
/// Is the generated transaction one its keys answer for?
fn owned(it: &Item, keys: &[B32]) -> R<M> {
    let m = it.snap().expect("a transaction");
    let at = |i: usize| format!("{}: {}", i, describe(&m));
    let mut signed = vec![];
    for (i, x) in m.inputs.iter().enumerate() {
        match x {
            Input::CoinSigned { owner, .. } => {
                ensure!(!signed.iter().any(|(msg, _)| *msg), "order", "a signed coin follows a signed message, input {}", at(i));
                signed.push((false, **owner));
            }
            Input::MessageSigned { recipient, .. } => signed.push((true, **recipient)),
            Input::CoinPredicate { owner, predicate, .. } | Input::MessagePredicate { recipient: owner, predicate, .. } => {
                ensure!(!predicate.is_empty() && predicate.len() % 8 == 0, "predicate-shape", "a predicate of {} bytes, input {}", predicate.len(), at(i));
                ensure!(**owner == predicate_owner(predicate), "predicate-owner", "the predicate does not own input {}", at(i));
            }
            Input::Contract { .. } => {}
        }
    }
    let owners: Vec<B32> = signed.iter().map(|x| x.1).collect();
    ensure!(owners == keys, "keys", "the keys returned own {:?}, the signed inputs are owned by {:?}: {}", keys.iter().map(hex32).collect::<Vec<_>>(), owners.iter().map(hex32).collect::<Vec<_>>(), describe(&m));
    ensure!(m.inputs.len() < 10 && m.outputs.len() < 10 && m.slots.len() < 10, "long-list", "a list of ten or more: {}", describe(&m));
    let txid = id(&m);
    ensure!(it.id() == Some(txid), "id", "the generated transaction reports another id than its content has: {}", describe(&m));
    let bad = auth_errors(&m, &txid);
    ensure!(bad.is_empty(), "unsigned", "{bad:?}: {}", describe(&m));
    let got = match it {
        Item::Script(t) => t.check_signatures(),
        Item::Create(t) => t.check_signatures(),
        _ => Ok(()),
    };
    ensure!(got.is_ok(), "refused", "the generated transaction is refused: {got:?}: {}", describe(&m));
    let mut copy = it.clone();
    let b = copy.to_bytes();
    ensure!(b == it.model().b, "encoding", "encoding of the generated transaction differs from its content: {}", describe(&m));
    let back = Item::from_bytes(it.ty(), &b).or_else(|e| viol("decode", format!("{e:?}: {}", describe(&m))))?;
    ensure!(back.strict() == it.strict(), "decode", "decodes to another transaction: {}", describe(&m));
    Ok(m)
}
fn hex32(b: &B32) -> String {
    hex(&b[..])
}

fn c27_factories(c: &mut Ctx) -> R {
    if c.chance(1, 24) {
        return c27_kinds(c);
    }
    let n = 1 + c.below(3);
    let seed = c.draw(0);
    let k = *c.pick(&[Kind3::Script, Kind3::Script, Kind3::Create, Kind3::Create, Kind3::Mint]);
    c.note(k as u64);
    c.log(|| format!("{n} parties with {k:?} factories of seed {seed:#x}"));
    if c.chance(1, 2) {
        // parties that start from one seed
        let mut truth: Vec<Made> = vec![];
        let mut ps: Vec<(Plant<rand::rngs::StdRng>, usize)> = (0..n).map(|_| (from_seed(k, seed), 0)).collect();
        for _ in 0..c.range(2, 10) {
            c.mark();
            c.tick(1);
            let i = c.below(n);
            if c.chance(1, 5) {
                c.count("fault.crash");
                c.nontrivial = true;
                let at = c.below(ps[i].1 + 1);
                let mut f = from_seed(k, seed);
                for j in 0..at {
                    // what was made before the crash comes again
                    let way = c.below(3);
                    agree(c, i, j, f.make(way), &mut truth)?;
                }
                ps[i] = (f, at);
                c.log(|| format!("party {i} crashed and is back at {at}"));
                continue;
            }
            let way = c.below(3);
            let made = ps[i].0.make(way);
            let j = ps[i].1;
            ps[i].1 += 1;
            agree(c, i, j, made, &mut truth)?;
        }
    } else {
        // factories over one source, which may get stuck; a repetition with fresh factories at every step
        let from = c.draw(60);
        let stuck = if c.chance(1, 3) {
            c.count("fault.stuck_source");
            (from, from + 1 + c.draw(20), *c.pick(&[0, u64::MAX, 1, 0xaaaa_aaaa_5555_5555]))
        } else {
            (0, 0, 0)
        };
        let src = Source { seed, pos: c.draw(64), stuck };
        let first = Shared(Rc::new(RefCell::new(src.clone())));
        let again = Shared(Rc::new(RefCell::new(src)));
        let mut ps: Vec<(Kind3, Plant<Shared>)> = (0..n)
            .map(|i| {
                let k = if i == 0 { k } else { *c.pick(&[Kind3::Script, Kind3::Create, Kind3::Mint]) };
                (k, Plant::over(k, first.clone()))
            })
            .collect();
        c.nontrivial = true;
        for j in 0..c.range(1, 5) {
            c.mark();
            c.tick(1);
            let i = c.below(n);
            let (way, other) = (c.below(3), c.below(3));
            let (it, keys) = ps[i].1.make(way);
            let (it2, keys2) = Plant::over(ps[i].0, again.clone()).make(other);
            if let Some(ks) = keys.as_ref().or(keys2.as_ref()) {
                owned(&it, ks)?;
            }
            ensure!(it.strict() == it2.strict(), "repeated", "draw {j} of factory {i} is {}, from the same place of the source a fresh one draws {}", it.describe(), it2.describe());
            if let (Some(a), Some(b)) = (keys, keys2) {
                ensure!(a == b, "repeated-keys", "draw {j} of factory {i} comes with other keys from the same place of the source");
            }
            let (a, b) = (first.0.borrow().pos, again.0.borrow().pos);
            ensure!(a == b, "repeated-position", "draw {j} leaves the source at {a} once and at {b} again");
            c.note(it.shape());
        }
    }
    Ok(())
}
/// what party `i` made as number `j` against what the first to get there made
fn agree(c: &mut Ctx, i: usize, j: usize, made: (Item, Option<Vec<B32>>), truth: &mut Vec<Made>) -> R {
    let (it, keys) = made;
    if j == truth.len() {
        // the first to make it; keys that were not handed out are known from the owners of the inputs
        let keys = keys.unwrap_or_else(|| {
            it.snap()
                .expect("a transaction")
                .inputs
                .iter()
                .filter_map(|x| match x {
                    Input::CoinSigned { owner, .. } => Some(**owner),
                    Input::MessageSigned { recipient, .. } => Some(**recipient),
                    _ => None,
                })
                .collect()
        });
        let m = owned(&it, &keys)?;
        c.note(shape(&m));
        c.log(|| format!("party {i} makes number {j}: {}", describe(&m)));
        truth.push((it, keys));
        return Ok(());
    }
    c.nontrivial = true;
    let (w, wk) = &truth[j];
    ensure!(it.strict() == w.strict(), "differs", "party {i} makes number {j} as {}, another made {}", it.describe(), w.describe());
    if let Some(k) = keys {
        ensure!(k == *wk, "differs-keys", "party {i} gets other keys with number {j} than another");
    }
    Ok(())
}
/// Over many transactions every kind of element comes.
fn c27_kinds(c: &mut Ctx) -> R {
    let k = *c.pick(&[Kind3::Script, Kind3::Create, Kind3::Mint]);
    let seed = c.draw(0);
    c.nontrivial = true;
    c.note(k as u64 + 100);
    let mut f = from_seed(k, seed);
    let (mut ins, mut outs, mut ws, mut ids) = ([0u32; 5], [0u32; 6], false, std::collections::BTreeSet::new());
    const N: usize = 60;
    for _ in 0..N {
        c.tick(1);
        let (it, keys) = f.make(0);
        let m = owned(&it, &keys.unwrap_or_default())?;
        ids.insert(id(&m));
        for x in &m.inputs {
            ins[match x {
                Input::CoinSigned { .. } => 0,
                Input::CoinPredicate { .. } => 1,
                Input::Contract { .. } => 2,
                Input::MessageSigned { .. } => 3,
                Input::MessagePredicate { .. } => 4,
            }] += 1;
        }
        for x in &m.outputs {
            outs[match x {
                Output::Coin { .. } => 0,
                Output::Contract { .. } => 1,
                Output::Message { .. } => 2,
                Output::Change { .. } => 3,
                Output::Variable { .. } => 4,
                Output::ContractCreated { .. } => 5,
            }] += 1;
        }
        // (one witness per key, the code of a create transaction, and others)
        ws |= m.witnesses.len() > m.inputs.len() + 1;
    }
    ensure!(ids.len() == N, "repetition", "only {} of {N} {k:?} transactions of seed {seed:#x} differ", ids.len());
    ensure!(outs.iter().all(|n| *n > 0), "outputs-missing", "{N} {k:?} transactions have outputs by kind {outs:?}");
    if k != Kind3::Mint {
        ensure!(ins.iter().all(|n| *n > 0), "inputs-missing", "{N} {k:?} transactions have inputs by kind {ins:?}");
        ensure!(ws, "witnesses-missing", "{N} {k:?} transactions have no witness besides those they need");
    }
    Ok(())
}
