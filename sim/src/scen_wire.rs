//! C01–C05, C14: streams, torn logs, damaged bytes, buffers, receipt journals.
use crate::alloc::measure;
use crate::core::*;
use crate::damage::damage;
use crate::gen::*;
use crate::item::*;
use crate::model::*;
use crate::scen_id::assign;
use crate::Scenario;
use fuel_tx::*;
use std::collections::BTreeMap;

pub fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario {
            id: "C01",
            f: c01_stream,
            quick: 1_200_000,
            what: "a sender node encodes a seeded sequence of values onto a byte stream; the simulated transport cuts it into pieces of seeded sizes with seeded delays and stalls; a receiver decodes from whatever has arrived, into reused targets",
            real: "encoders, decoders, serialized_size of Transaction, Script, Create, Mint, Input, Output, Witness, StorageSlot, UtxoId, TxPointer, Receipt; from_bytes, to_bytes, try_from_bytes",
            stub: "byte stream transport (simulated); layout model (independent oracle)",
        },
        Scenario {
            id: "C02",
            f: c02_torn,
            quick: 600_000,
            what: "a node appends encoded values to a log on a simulated disk and crashes at a seeded byte; recovery decodes what survived, then the missing bytes are re-supplied in pieces; every cut point of one record is swept; damaged records are offered to targets holding a value",
            real: "decoders of all wire types",
            stub: "disk (simulated, prefix-durable), layout model",
        },
        Scenario {
            id: "C03",
            f: c03_hostile,
            quick: 2_000_000,
            what: "peers send damaged, garbage and hostile bytes and text; the node decodes them under a metered, capped allocator and uses whatever it accepts (id, checks, fees, re-encoding, positions, preparation, JSON)",
            real: "all decoders, from_str, from_json, id, check, into_checked_basic, fee, precompute, field positions, prepare_init_*, to_json",
            stub: "network damage (simulated), allocator (metering, failing above 1 GiB)",
        },
        Scenario {
            id: "C04",
            f: c04_accepted,
            quick: 1_200_000,
            what: "encodings damaged in transit by seeded faults aimed at fields, lengths, tags and counts are decoded by the node and by the layout model, which must agree on acceptance, value and consumption; accepted values are re-encoded",
            real: "decoders and encoders of all wire types, id",
            stub: "network damage (simulated), layout model (independent decoder)",
        },
        Scenario {
            id: "C05",
            f: c05_buffers,
            quick: 1_500_000,
            what: "one value is encoded in a seeded sequence of calls into buffers with stale content, of exact, larger and too small size, before and after precomputation, bare and wrapped, interleaved with decodes into reused targets",
            real: "encoders of all wire types, precompute, wrapping",
            stub: "buffer memory (simulated stale content)",
        },
        Scenario {
            id: "C14",
            f: c14_journal,
            quick: 1_200_000,
            what: "an executor node appends receipts to a journal on a simulated disk in wire, JSON or bincode form, crashes at a seeded byte, restarts, reads back the journal, resumes; records are damaged and re-read",
            real: "Receipt constructors, accessors, encoder, decoder, serde forms",
            stub: "disk (simulated), receipt layout model",
        },
    ]
}

fn some_value(c: &mut Ctx, s: &Swarm, receipts: bool) -> Item {
    let t = if receipts && c.chance(1, 8) { Ty::Receipt } else { any_ty(c) };
    item(c, s, t)
}

/// Encode and check the announced size and the canonical layout.
fn encode_checked(c: &mut Ctx, it: &mut Item) -> R<Vec<u8>> {
    let size = it.size();
    let want = it.model().b;
    ensure!(size == want.len(), "size", "announced size {size}, layout has {} bytes: {}", want.len(), it.describe());
    let before = it.strict();
    let mut buf = vec![0xA5u8; size];
    if c.chance(1, 2) {
        buf.iter_mut().for_each(|x| *x = 0);
    }
    let n = match it.encode(&mut buf) {
        Ok(n) => n,
        Err(e) => return viol("encode-refused", format!("encoder refused a buffer of the announced size {size}: {e:?}: {}", it.describe())),
    };
    ensure!(n == size, "written", "encoder reports {n} bytes written, announced {size}: {}", it.describe());
    if buf != want {
        let at = buf.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
        let f = it.model().f.iter().filter(|f| f.off <= at && at < f.off + f.len).map(|f| f.k).next().unwrap_or("?");
        return viol("layout", format!("encoding differs from the canonical layout at byte {at} (field {f}): {}", it.describe()));
    }
    ensure!(it.strict() == before, "mutated", "encoding changed the value: {}", it.describe());
    Ok(buf)
}

// ------------------------------------------------------------------ C01
fn c01_stream(c: &mut Ctx) -> R {
    let s = swarm(c);
    let k = 1 + c.below(6);
    let mut sent: Vec<(Item, Vec<u8>)> = vec![];
    let mut stream = vec![];
    for _ in 0..k {
        c.mark();
        let mut it = some_value(c, &s, true);
        if c.chance(1, 6) {
            it.precompute();
        }
        let b = encode_checked(c, &mut it)?;
        c.note(it.shape());
        c.log(|| format!("send {} ({} bytes)", it.describe(), b.len()));
        stream.extend_from_slice(&b);
        sent.push((it, b));
        if c.exhausted() {
            break;
        }
    }
    let trailing = if c.chance(1, 3) { c.below(40) } else { 0 };
    let total = stream.len();
    let mut junk = vec![0u8; trailing];
    c.fill(&mut junk);
    stream.extend_from_slice(&junk);

    let mut targets: BTreeMap<usize, Item> = BTreeMap::new();
    let style = c.below(5);
    let mut have = 0usize;
    let mut pos = 0usize;
    let mut i = 0usize;
    let mut stalled = 0;
    while i < sent.len() {
        // the transport delivers some bytes
        let left = stream.len() - have;
        let step = if left == 0 {
            0
        } else {
            let big = (total / 24).max(1);
            match style {
                0 => left,
                1 => 1 + c.below(big),
                2 => 8 * (1 + c.below(big / 8 + 1)),
                3 => match c.below(4) {
                    0 => big,
                    1 => 1.max(sent[i].1.len().saturating_sub(have - pos)),
                    2 => 1.max((sent[i].1.len() + 1).saturating_sub(have - pos + 2)),
                    _ => 1 + c.below(16),
                },
                _ => 1 + c.below(2 * big),
            }
            .min(left)
        };
        let d = 1 + c.draw(9);
        c.tick(d);
        if d > 7 {
            c.count("fault.stall");
        }
        have += step;
        if step > 0 && have < total {
            c.count("fault.fragment");
        }
        if left == 0 {
            stalled += 1;
            ensure!(stalled < 3, "stuck", "all bytes arrived but value {i} ({}) was not decoded", sent[i].0.describe());
        }
        // the receiver takes whole values
        while i < sent.len() {
            let avail = &stream[pos..have];
            let (want, wb) = &sent[i];
            let ty = want.ty();
            let complete = avail.len() >= wb.len();
            let mode = c.below(4);
            let r: Result<(usize, Item), WErr> = match mode {
                0 => {
                    let mut t = Item::blank(ty);
                    t.decode(avail).map(|n| (n, t))
                }
                1 if ty == Ty::Tx => Item::try_from_bytes(avail),
                1 => Item::from_bytes(ty, avail).map(|t| (wb.len(), t)),
                _ => {
                    // a reused target, holding whatever was decoded into it last
                    let mut t = match targets.remove(&(ty as usize)) {
                        Some(t) => t,
                        None => {
                            let mut t = item(c, &s, ty);
                            if c.chance(1, 2) {
                                t.precompute();
                            }
                            t
                        }
                    };
                    c.count("reused_target");
                    let r = t.decode(avail);
                    let out = r.map(|n| (n, t.clone()));
                    targets.insert(ty as usize, t);
                    out
                }
            };
            c.nontrivial = true;
            match r {
                Ok((n, got)) => {
                    ensure!(complete, "premature", "a {ty:?} of {} bytes was decoded from its first {} bytes", wb.len(), avail.len());
                    ensure!(n == wb.len(), "consumed", "decoding a {ty:?} of {} bytes consumed {n}", wb.len());
                    ensure!(
                        got.strict() == want.strict(),
                        "value",
                        "decoded value differs (mode {mode}): sent {} got {}",
                        want.describe(),
                        got.describe()
                    );
                    ensure!(got == *want, "equality", "decoded value is not equal to the one sent: {}", want.describe());
                    ensure!(got.size() == n, "size-after", "announced size of the decoded value is {}, consumed {n}", got.size());
                    c.log(|| format!("received {ty:?} #{i} ({n} bytes)"));
                    pos += n;
                    i += 1;
                }
                Err(e) => {
                    ensure!(!complete, "refused", "complete encoding refused ({e:?}, mode {mode}): {}", want.describe());
                    ensure!(e == WErr::Eof, "wrong-error", "an incomplete encoding ({} of {} bytes) gave {e:?}, not end-of-data", avail.len(), wb.len());
                    c.count("incomplete_retry");
                    break;
                }
            }
        }
        c.note(have as u64 * 16 / (total as u64 + 1));
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
fn unchanged(t: &mut Item, before: &Item, strict_before: &[u8], computed: bool, what: &str) -> R {
    ensure!(t.strict() == strict_before && t == before, "target-changed", "{what}: a failed decode changed its target from {} to {}", before.describe(), t.describe());
    ensure!(t.is_computed() == computed, "target-cache", "{what}: a failed decode changed the derived data of its target {}", before.describe());
    if let Some(m) = t.snap() {
        ensure!(t.id() == Some(id(&m)), "target-id", "{what}: after a failed decode the id of {} is wrong", t.describe());
    }
    Ok(())
}
fn c02_torn(c: &mut Ctx) -> R {
    let s = swarm(c);
    match c.below(3) {
        0 => c02_log(c, &s),
        1 => c02_sweep(c, &s),
        _ => c02_damaged(c, &s),
    }
}
fn c02_log(c: &mut Ctx, s: &Swarm) -> R {
    let k = 1 + c.below(6);
    let mut log = vec![];
    let mut recs: Vec<(Item, usize, usize)> = vec![];
    for _ in 0..k {
        c.mark();
        let mut it = some_value(c, s, true);
        let b = it.to_bytes();
        let at = log.len();
        log.extend_from_slice(&b);
        c.tick(1);
        recs.push((it, at, log.len()));
        if c.exhausted() {
            break;
        }
    }
    // crash: a prefix survives
    let cut = match c.below(3) {
        0 => c.below(log.len() + 1),
        _ => {
            let r = c.below(recs.len());
            let (a, b) = (recs[r].1, recs[r].2);
            match c.below(3) {
                0 => a + c.below(b - a + 1),
                1 => b - c.below(9).min(b - a),
                _ => a + 8 * c.below((b - a) / 8 + 1),
            }
        }
    };
    c.count("fault.crash_torn_write");
    c.log(|| format!("log of {} bytes in {} records, crash leaves {cut}", log.len(), recs.len()));
    let disk = &log[..cut];
    let mut pos = 0;
    let mut stop = recs.len();
    for (i, (want, a, b)) in recs.iter().enumerate() {
        let ty = want.ty();
        let mut t = item(c, s, ty);
        if c.chance(1, 2) {
            t.precompute();
        }
        let (before, sb, comp) = (t.clone(), t.strict(), t.is_computed());
        c.nontrivial = true;
        match t.decode(&disk[pos..]) {
            Ok(n) => {
                ensure!(*b <= cut, "torn-accepted", "record {i} ({}) torn at byte {} of {} was accepted", want.describe(), cut - a, b - a);
                ensure!(n == b - a, "consumed", "record {i} of {} bytes consumed {n}", b - a);
                ensure!(t.strict() == want.strict(), "value", "record {i} recovered differently: {} became {}", want.describe(), t.describe());
                pos += n;
            }
            Err(e) => {
                ensure!(*b > cut, "lost", "complete record {i} ({}) refused: {e:?}", want.describe());
                ensure!(e == WErr::Eof, "wrong-error", "torn record {i} ({}) gave {e:?}, not end-of-data", want.describe());
                unchanged(&mut t, &before, &sb, comp, "torn record")?;
                stop = i;
                break;
            }
        }
    }
    c.note(mix(recs.len() as u64, stop as u64));
    for r in &recs {
        c.note(r.0.shape());
    }
    // the rest arrives again, in pieces
    let mut have = cut;
    let mut target = recs.get(stop).map(|r| Item::blank(r.0.ty()));
    let mut i = stop;
    while i < recs.len() {
        let left = log.len() - have;
        let step = if left == 0 { 0 } else { (1 + c.below((log.len() / 6).max(8))).min(left) };
        have += step;
        c.tick(1);
        loop {
            if i >= recs.len() {
                break;
            }
            let (want, a, b) = &recs[i];
            let t = target.get_or_insert_with(|| Item::blank(want.ty()));
            if t.ty() != want.ty() {
                *t = Item::blank(want.ty());
            }
            match t.decode(&log[pos..have]) {
                Ok(n) => {
                    ensure!(*b <= have, "torn-accepted", "record {i} accepted before its last byte arrived");
                    ensure!(n == b - a && t.strict() == want.strict(), "resume", "record {i} resumed as {}, was {}", t.describe(), want.describe());
                    pos += n;
                    i += 1;
                    c.count("resumed_record");
                }
                Err(e) => {
                    ensure!(*b > have, "lost", "complete record {i} refused on resume: {e:?}");
                    ensure!(e == WErr::Eof, "wrong-error", "incomplete record {i} gave {e:?}");
                    break;
                }
            }
        }
    }
    Ok(())
}
fn c02_sweep(c: &mut Ctx, s: &Swarm) -> R {
    let mut it = some_value(c, s, true);
    let b = it.to_bytes();
    let model = it.model();
    let ty = it.ty();
    c.note(it.shape());
    c.log(|| format!("sweep all cuts of {} ({} bytes)", it.describe(), b.len()));
    let cuts: Vec<usize> = if b.len() <= 600 {
        (0..b.len()).collect()
    } else {
        let mut v: Vec<usize> = vec![0];
        for f in &model.f {
            for d in [0usize, 1, 7, 8] {
                v.push((f.off + d).min(b.len() - 1));
                v.push((f.off + f.len).saturating_sub(d).min(b.len() - 1));
            }
        }
        for _ in 0..20 {
            v.push(c.below(b.len()));
        }
        v.sort();
        v.dedup();
        if v.len() > 700 {
            let k = v.len() / 700 + 1;
            let o = c.below(k);
            v = v.into_iter().skip(o).step_by(k).collect();
        }
        v
    };
    let mut t = item(c, s, ty);
    if c.chance(1, 2) {
        t.precompute();
    }
    let (before, sb, comp) = (t.clone(), t.strict(), t.is_computed());
    c.nontrivial = true;
    c.count_n("fault.crash_torn_write", cuts.len() as u64);
    c.tick(cuts.len() as u64);
    let full = cuts.len() <= 120;
    for (j, k) in cuts.iter().enumerate() {
        match t.decode(&b[..*k]) {
            Ok(n) => return viol("torn-accepted", format!("first {k} of {} bytes of {} accepted (consumed {n}) as {}", b.len(), it.describe(), t.describe())),
            Err(e) => ensure!(e == WErr::Eof, "wrong-error", "first {k} of {} bytes of {} gave {e:?}, not end-of-data", b.len(), it.describe()),
        }
        if full || j % 16 == 0 || t != before {
            unchanged(&mut t, &before, &sb, comp, "cut")?;
        }
    }
    unchanged(&mut t, &before, &sb, comp, "cut")?;
    match t.decode(&b) {
        Ok(n) => ensure!(n == b.len() && t.strict() == it.strict(), "value", "whole encoding of {} decoded as {}", it.describe(), t.describe()),
        Err(e) => return viol("refused", format!("whole encoding of {} refused: {e:?}", it.describe())),
    }
    Ok(())
}
fn c02_damaged(c: &mut Ctx, s: &Swarm) -> R {
    let ty = if c.chance(1, 4) { *c.pick(&TYPES) } else { any_ty(c) };
    let mut it = item(c, s, ty);
    let clean = it.to_bytes();
    let f = it.model().f;
    let mut t = item(c, s, ty);
    if c.chance(1, 2) {
        t.precompute();
    }
    let tries = 1 + c.below(6);
    for _ in 0..tries {
        c.mark();
        let mut b = clean.clone();
        let mut label = damage(c, &mut b, &f);
        if c.chance(1, 4) {
            label = damage(c, &mut b, &f);
        }
        let (before, sb, comp) = (t.clone(), t.strict(), t.is_computed());
        let want = model_decode(ty, &b);
        c.tick(1);
        match (t.decode(&b), want) {
            (Err(_), _) => {
                c.nontrivial = true;
                c.note(mix(it.shape(), hash_bytes(label.as_bytes())));
                unchanged(&mut t, &before, &sb, comp, label)?;
            }
            (Ok(_), Err(DecErr::Eof)) => {
                return viol("torn-accepted", format!("{label}: bytes that end before the announced content were accepted as {}", t.describe()));
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
const PER_BYTE: usize = 512;
const SLACK: usize = 64 << 10;
fn bounded<T>(n: usize, what: &str, f: impl FnOnce() -> T) -> R<T> {
    let (r, peak) = measure(f);
    if peak > PER_BYTE * n + SLACK {
        return viol("memory", format!("{what} of {n} bytes allocated {peak} bytes"));
    }
    Ok(r)
}
fn c03_hostile(c: &mut Ctx) -> R {
    let s = swarm(c);
    match c.below(16) {
        0 | 1 => c03_text(c, &s),
        2 | 3 => c03_json(c, &s),
        4 => c03_bincode(c, &s),
        _ => c03_bytes(c, &s),
    }
}
fn c03_bytes(c: &mut Ctx, s: &Swarm) -> R {
    let ty = if c.chance(1, 3) { *c.pick(&TYPES) } else { Ty::Tx };
    let mut b;
    let mut label;
    if c.chance(1, 10) {
        let n = match c.below(3) {
            0 => c.below(64),
            1 => c.below(600),
            _ => 8 * c.below(60),
        };
        b = vec![0u8; n];
        c.fill(&mut b);
        if c.chance(3, 4) {
            // small words
            for ch in b.chunks_mut(8) {
                let k = ch.len();
                if k == 8 {
                    ch[..7].iter_mut().for_each(|x| *x = 0);
                    ch[7] &= 0x0f;
                }
            }
            if b.len() >= 8 {
                let t = c.draw(11);
                b[..8].copy_from_slice(&t.to_be_bytes());
            }
        }
        c.count("fault.garbage");
        label = "garbage";
    } else {
        let mut it = item(c, s, ty);
        b = it.to_bytes();
        let f = it.model().f;
        label = "";
        let k = 1 + c.below(4);
        for _ in 0..k {
            c.mark();
            label = damage(c, &mut b, &f);
        }
    }
    let mut t = if c.chance(1, 3) { item(c, s, ty) } else { Item::blank(ty) };
    c.tick(1);
    c.log(|| format!("{ty:?} from {} bytes after {label}", b.len()));
    let r = bounded(b.len(), &format!("decoding {ty:?}"), || t.decode(&b))?;
    c.nontrivial = true;
    c.note(mix(mix(ty as u64, hash_bytes(label.as_bytes())), mix(b.len() as u64 / 8, r.is_ok() as u64)));
    // the same bytes offered as another type
    if c.chance(1, 4) {
        let other = *c.pick(&TYPES);
        let _ = bounded(b.len(), &format!("from_bytes {other:?}"), || Item::from_bytes(other, &b).is_ok())?;
    }
    if r.is_ok() {
        c.count("accepted_damaged");
        c.note(t.shape());
        use_item(c, s, t, b.len())?;
    }
    Ok(())
}
/// Everything a node may do with a value it accepted.
fn use_item(c: &mut Ctx, s: &Swarm, mut t: Item, n: usize) -> R {
    let n = n + t.strict().len();
    let _ = bounded(n, "re-encoding", || t.to_bytes())?;
    match t {
        Item::Tx(tx) => use_tx(c, s, tx, n),
        Item::Script(tx) => use_tx(c, s, tx.into(), n),
        Item::Create(tx) => use_tx(c, s, tx.into(), n),
        Item::Mint(tx) => use_tx(c, s, tx.into(), n),
        Item::Input(i) => {
            let p = params(c);
            bounded(n, "input use", || {
                let _ = i.predicate_offset();
                let _ = i.predicate_data_offset();
                let _ = i.predicate_len();
                let _ = i.predicate();
                let _ = i.check(byte_of(&i), &Bytes32::zeroed(), &[], &[], &p);
                let mut j = i.clone();
                j.prepare_init_predicate();
                serde_json::to_string(&i).map(|x| x.len()).unwrap_or(0)
            })?;
            Ok(())
        }
        Item::Output(o) => {
            let mut o = o;
            let _ = o.check(0, &[]);
            o.prepare_init_script();
            o.prepare_init_predicate();
            Ok(())
        }
        Item::Receipt(r) => {
            bounded(n, "receipt use", || {
                let _ = (r.id(), r.pc(), r.data().map(|d| d.len()), r.len(), r.digest(), r.reason(), r.result());
                serde_json::to_string(&r).map(|x| x.len()).unwrap_or(0)
            })?;
            Ok(())
        }
        Item::Utxo(u) => {
            let t = format!("{u:x}{u:X}{u:#x}");
            let _ = t.parse::<UtxoId>();
            Ok(())
        }
        Item::Ptr(u) => {
            let _ = format!("{u:x}{u:X}");
            Ok(())
        }
        _ => Ok(()),
    }
}
fn byte_of(i: &Input) -> usize {
    i.witness_index().unwrap_or(0) as usize
}
fn use_tx(c: &mut Ctx, s: &Swarm, mut tx: Transaction, n: usize) -> R {
    let p = params(c);
    let h = word(c);
    let _ = s;
    let steps = c.draw(0);
    bounded(n, "using an accepted transaction", || {
        if steps & 1 != 0 {
            let _ = tx.id();
        }
        if steps & 2 != 0 {
            tx.precompute();
            let _ = tx.id();
        }
        if steps & 4 != 0 {
            let _ = tx.check_without_signatures(h, &p);
            let _ = tx.check_without_signatures(u64::MAX, &ConsensusParameters::DEFAULT);
        }
        if steps & 8 != 0 {
            let _ = tx.check_signatures();
        }
        if steps & 16 != 0 {
            let _ = tx.clone().into_checked_basic(h, &p);
            let _ = tx.clone().into_checked(u64::MAX, &ConsensusParameters::DEFAULT);
        }
        use fuel_tx::field::*;
        match &mut tx {
            Transaction::Script(t) => {
                let _ = TransactionFee::checked_from_tx(&p, t);
                touch_offsets(t);
                let _ = t.script_data_offset();
                let _ = t.input_asset_ids_unique().count();
                let _ = t.input_contracts().count();
                let _ = t.check_predicate_owners();
                if steps & 32 != 0 {
                    t.prepare_init_script();
                    t.prepare_init_predicate();
                }
            }
            Transaction::Create(t) => {
                let _ = TransactionFee::checked_from_tx(&p, t);
                touch_offsets(t);
                let _ = (0..t.storage_slots().len() + 1).map(|i| t.storage_slots_offset_at(i)).count();
                let _ = t.input_asset_ids().count();
                let _ = Contract::try_from(&*t);
                let _ = Contract::initial_state_root(t.storage_slots().iter());
                if steps & 32 != 0 {
                    t.prepare_init_script();
                    t.prepare_init_predicate();
                }
            }
            Transaction::Mint(t) => {
                let _ = (0..t.outputs().len() + 1).map(|i| t.outputs_offset_at(i)).count();
            }
        }
        if steps & 64 != 0 {
            let _ = tx.to_json();
        }
    })?;
    Ok(())
}
fn touch_offsets<T: fuel_tx::field::Inputs + fuel_tx::field::Outputs + fuel_tx::field::Witnesses>(t: &T) {
    for i in (0..t.inputs().len() + 1).take(300) {
        let _ = t.inputs_offset_at(i);
        let _ = t.inputs_predicate_offset_at(i);
    }
    for i in (0..t.outputs().len() + 1).take(300) {
        let _ = t.outputs_offset_at(i);
    }
    for i in (0..t.witnesses().len() + 1).take(300) {
        let _ = t.witnesses_offset_at(i);
    }
}
const ODD: [&str; 14] = ["é", "0x", "€", "\u{1F600}", "+", "-", " ", "\0", "g", "0X", "ÿ", "\u{7ff}", "x", "F"];
fn c03_text(c: &mut Ctx, s: &Swarm) -> R {
    let which = c.below(2);
    let mut t = if which == 0 {
        let u = utxo(c, s);
        match c.below(3) {
            0 => format!("{u:x}"),
            1 => format!("{u:#x}"),
            _ => format!("{u:X}"),
        }
    } else {
        let p = ptr(c);
        format!("{p:x}")
    };
    let k = c.below(5);
    for _ in 0..k {
        let idx: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
        let at = *c.pick(&idx);
        match c.below(5) {
            0 => t.insert_str(at, c.pick(&ODD)),
            1 => {
                // replace as many bytes as are inserted, keeping the length
                let o = *c.pick(&ODD);
                let end = at + o.len();
                if t.is_char_boundary(at) && end <= t.len() && t.is_char_boundary(end) {
                    t.replace_range(at..end, o);
                }
            }
            2 => t.truncate(at),
            3 => {
                if at < t.len() {
                    t.remove(at);
                }
            }
            _ => t = t[at..].to_string(),
        }
        c.count("fault.text_damage");
    }
    c.log(|| format!("parse {t:?}"));
    c.nontrivial = true;
    c.note(mix(hash_bytes(t.as_bytes()), which as u64));
    c.tick(1);
    bounded(t.len(), "parsing text", || {
        let _ = t.parse::<UtxoId>();
        let _ = t.parse::<TxPointer>();
    })?;
    Ok(())
}
/// Damaged records of the compact serde form. The list reader of serde reserves up to 1 MiB per
/// list before it has seen the elements, so only much more than that is out of proportion.
fn c03_bincode(c: &mut Ctx, s: &Swarm) -> R {
    let tx = c.chance(2, 3);
    let (mut b, h) = if tx {
        let m = any_tx(c, s);
        (bincode::serialize(&build(&m)).unwrap_or_default(), shape(&m))
    } else {
        let r = item(c, s, Ty::Receipt);
        let Item::Receipt(x) = &r else { return Ok(()) };
        (bincode::serialize(x).unwrap_or_default(), r.shape())
    };
    let k = 1 + c.below(3);
    for _ in 0..k {
        c.mark();
        if c.chance(1, 2) && !b.is_empty() {
            // a length, tag or number as eight little-endian bytes
            let at = c.below(b.len());
            let v = word(c).to_le_bytes();
            let n = v.len().min(b.len() - at);
            b[at..at + n].copy_from_slice(&v[..n]);
            c.count("fault.number");
        } else {
            damage(c, &mut b, &[]);
        }
    }
    c.tick(1);
    c.nontrivial = true;
    let n = b.len() + (16 << 20) / PER_BYTE;
    let got = if tx {
        bounded(n, "loading a stored transaction", || bincode::deserialize::<Transaction>(&b).ok())?.map(Item::Tx)
    } else {
        bounded(n, "loading a stored receipt", || bincode::deserialize::<Receipt>(&b).ok())?.map(Item::Receipt)
    };
    c.note(mix(h, got.is_some() as u64));
    if let Some(it) = got {
        c.count("accepted_damaged");
        use_item(c, s, it, b.len())?;
    }
    Ok(())
}
fn c03_json(c: &mut Ctx, s: &Swarm) -> R {
    let m = any_tx(c, s);
    if strict(&m).len() > 20_000 {
        return Ok(());
    }
    let mut t = build(&m).to_json().into_bytes();
    let k = 1 + c.below(3);
    for _ in 0..k {
        c.mark();
        match c.below(4) {
            0 => {
                damage(c, &mut t, &[]);
            }
            1 => {
                // replace a number
                let digits: Vec<usize> = (1..t.len()).filter(|i| t[*i].is_ascii_digit() && !t[*i - 1].is_ascii_digit()).collect();
                if !digits.is_empty() {
                    let a = *c.pick(&digits);
                    let e = (a..t.len()).find(|i| !t[*i].is_ascii_digit()).unwrap_or(t.len());
                    let w: &str = *c.pick(&["18446744073709551616", "-1", "256", "4294967296", "1e9", "null", "\"x\"", "[]", "65536"]);
                    t.splice(a..e, w.bytes());
                }
                c.count("fault.text_damage");
            }
            2 => {
                let at = c.below(t.len() + 1);
                let w: &str = *c.pick(&["é", "{", "}", "[", "]", "null", ",", "\"", "\u{1F600}", "[[[[[[[[[[[["]);
                t.splice(at..at, w.bytes());
                c.count("fault.text_damage");
            }
            _ => {
                let at = c.below(t.len() + 1);
                t.truncate(at);
                c.count("fault.truncate");
            }
        }
    }
    let t = String::from_utf8_lossy(&t).into_owned();
    c.tick(1);
    c.nontrivial = true;
    let r = bounded(t.len(), "from_json", || Transaction::from_json(&t))?;
    c.note(mix(shape(&m), r.is_some() as u64));
    if let Some(tx) = r {
        c.count("accepted_damaged");
        use_item(c, s, Item::Tx(tx), t.len())?;
    }
    let _ = bounded(t.len(), "parsing receipts", || serde_json::from_str::<Receipt>(&t).is_ok())?;
    Ok(())
}

// ------------------------------------------------------------------ C04
fn c04_accepted(c: &mut Ctx) -> R {
    let s = swarm(c);
    let ty = if c.chance(1, 2) { *c.pick(&TYPES) } else { Ty::Tx };
    let mut it = item(c, &s, ty);
    let clean = it.to_bytes();
    let f = it.model().f;
    let tries = 1 + c.below(4);
    for _ in 0..tries {
        c.mark();
        let mut b = clean.clone();
        let k = c.below(4);
        let mut label = "none";
        for _ in 0..k.max(1) {
            label = damage(c, &mut b, &f);
        }
        c04_one(c, &s, ty, &b, label)?;
    }
    Ok(())
}
fn c04_one(c: &mut Ctx, s: &Swarm, ty: Ty, b: &[u8], label: &str) -> R {
    let want = model_decode(ty, b);
    let mut t = if c.chance(1, 2) {
        let mut t = item(c, s, ty);
        if c.chance(1, 2) {
            t.precompute();
        }
        t
    } else {
        Item::blank(ty)
    };
    let r = t.decode(b);
    c.tick(1);
    c.nontrivial = true;
    c.note(mix(mix(ty as u64, hash_bytes(label.as_bytes())), r.is_ok() as u64));
    c.log(|| format!("{ty:?} {} bytes after {label}: {r:?}", b.len()));
    match (&r, &want) {
        (Err(_), Err(_)) => {
            c.count("both_refuse");
            return Ok(());
        }
        (Ok(n), Err(e)) => return viol("accepted", format!("{label}: layout refuses ({e:?}) but decoder accepted {n} bytes as {}", t.describe())),
        (Err(e), Ok((w, n))) => return viol("refused", format!("{label}: layout gives {} in {n} bytes, decoder refused with {e:?}", w.describe())),
        (Ok(n), Ok((w, m))) => {
            c.count("both_accept");
            ensure!(t.strict() == w.strict(), "value", "{label}: layout gives {}, decoder gives {}", w.describe(), t.describe());
            ensure!(n == m, "consumed", "{label}: record is {m} bytes, decoder consumed {n}: {}", w.describe());
        }
    }
    c.note(t.shape());
    let e1 = t.to_bytes();
    ensure!(e1 == t.model().b, "layout", "{label}: accepted value encodes off the layout: {}", t.describe());
    let mut u = Item::blank(ty);
    match u.decode(&e1) {
        Ok(n) => {
            ensure!(n == e1.len() && u.strict() == t.strict(), "fixpoint", "{label}: re-encoding {} decoded as {} ({n} of {} bytes)", t.describe(), u.describe(), e1.len());
            // (fuel-asm keeps bits of a foreign panic word that its word form drops)
            let word_only = matches!(&t, Item::Receipt(Receipt::Panic { reason, .. })
                if fuel_asm::InstructionResult::from(u64::from(*reason)) != *reason);
            ensure!(u == t || word_only, "fixpoint-eq", "{label}: re-decoded value is not equal to the accepted one: {}", t.describe());
        }
        Err(e) => return viol("fixpoint-refused", format!("{label}: re-encoded {} refused: {e:?}", t.describe())),
    }
    ensure!(u.to_bytes() == e1, "fixpoint-bytes", "{label}: second encoding differs: {}", t.describe());
    if let Some(m) = t.snap() {
        let i = id(&m);
        ensure!(t.id() == Some(i) && u.id() == Some(i), "id", "{label}: ids of the accepted and re-decoded value differ from the id of the content: {}", t.describe());
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
fn c05_buffers(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut it = some_value(c, &s, true);
    let mut want = it.model().b;
    let mut strict0 = it.strict();
    let mut n = want.len();
    c.note(it.shape());
    c.log(|| format!("value {} ({n} bytes)", it.describe()));
    ensure!(it.size() == n, "size", "announced {} bytes, layout has {n}: {}", it.size(), it.describe());
    let steps = 2 + c.below(8);
    for _ in 0..steps {
        c.mark();
        c.tick(1);
        let op = c.below(12);
        c.note(op as u64);
        match op {
            0..=2 => {
                // larger buffer with stale content
                let extra = *c.pick(&[0usize, 0, 1, 7, 8, 9, 64, 300]);
                let stale = c.draw(256) as u8;
                let mut buf = vec![stale; n + extra];
                if c.chance(1, 2) {
                    c.fill(&mut buf);
                }
                let old = buf.clone();
                c.count("fault.stale_buffer");
                let r = it.encode(&mut buf);
                c.nontrivial = true;
                ensure!(r == Ok(n), "written", "encoding {n} bytes into {} reported {r:?}: {}", n + extra, it.describe());
                ensure!(buf[n..] == old[n..], "overrun", "encoder touched bytes past the announced size {n}: {}", it.describe());
                if buf[..n] != want[..] {
                    let at = buf.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                    let kept = buf[at] == old[at];
                    return viol(
                        "bytes",
                        format!("encoding differs from the canonical bytes at {at} ({}): {}", if kept { "left as it was" } else { "wrong" }, it.describe()),
                    );
                }
            }
            3 | 4 => {
                // too short
                let short = match c.below(3) {
                    0 => n - 1 - c.below(8.min(n)),
                    1 => c.below(n),
                    _ => n - 1,
                };
                let mut buf = vec![0u8; short];
                c.fill(&mut buf);
                let old = buf.clone();
                c.count("fault.short_buffer");
                let r = it.encode(&mut buf);
                c.nontrivial = true;
                ensure!(r.is_err(), "short-accepted", "a {n}-byte value reported {r:?} into {short} bytes: {}", it.describe());
                ensure!(r == Err(WErr::Eof), "short-error", "short buffer gave {r:?}: {}", it.describe());
                ensure!(buf == old, "short-written", "a refused encode into {short} of {n} bytes wrote to the buffer: {}", it.describe());
            }
            5 => {
                it.precompute();
                c.count("precompute");
            }
            6 => {
                // bare <-> wrapped
                it = match it {
                    Item::Script(t) => Item::Tx(t.into()),
                    Item::Create(t) => Item::Tx(t.into()),
                    Item::Mint(t) => Item::Tx(t.into()),
                    Item::Tx(Transaction::Script(t)) => Item::Script(t),
                    Item::Tx(Transaction::Create(t)) => Item::Create(t),
                    Item::Tx(Transaction::Mint(t)) => Item::Mint(t),
                    x => x,
                };
                c.count("rewrapped");
            }
            10 | 11 => {
                // edited in place; derived data, if any, is now of the earlier content
                if let Some(mut m) = it.snap() {
                    field_edit(c, &s, &mut m);
                    assign(&mut it, &m);
                    want = enc_bytes(&m);
                    n = want.len();
                    strict0 = strict(&m);
                    if it.is_computed() {
                        c.count("edited after precomputation");
                    }
                }
            }
            9 => {
                let r = it.flush();
                ensure!(r.is_ok(), "flush", "flushing gave {r:?}: {}", it.describe());
            }
            7 => {
                let b = it.to_bytes();
                ensure!(b == want, "to-bytes", "to_bytes differs from the canonical bytes: {}", it.describe());
            }
            _ => {
                // through a reused target
                let mut t = item(c, &s, it.ty());
                if c.chance(1, 2) {
                    t.precompute();
                }
                let r = t.decode(&want);
                ensure!(r == Ok(n), "decode", "canonical bytes gave {r:?}: {}", it.describe());
                it = t;
            }
        }
        ensure!(it.strict() == strict0, "mutated", "encoding or precomputing changed the value to {}", it.describe());
        ensure!(it.size() == n, "size", "announced size became {} (was {n}): {}", it.size(), it.describe());
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
fn c14_journal(c: &mut Ctx) -> R {
    let s = swarm(c);
    let form = c.below(3);
    let k = 1 + c.below(8);
    let mut emitted: Vec<Receipt> = vec![];
    let mut log: Vec<u8> = vec![];
    let mut ends = vec![];
    for _ in 0..k {
        c.mark();
        let r = receipt(c, &s);
        c14_fields(c, &r)?;
        let b = match form {
            0 => {
                let mut it = Item::Receipt(r.clone());
                encode_checked(c, &mut it)?
            }
            1 => {
                let mut b = serde_json::to_vec(&r).unwrap_or_default();
                b.push(b'\n');
                b
            }
            _ => bincode::serialize(&r).unwrap_or_default(),
        };
        c.log(|| format!("emit {} as {} bytes", Item::Receipt(r.clone()).describe(), b.len()));
        c.note(mix(b.len() as u64, enc_receipt(&r).b[7] as u64));
        log.extend_from_slice(&b);
        ends.push(log.len());
        emitted.push(r);
        c.tick(1);
    }
    // crash with a torn tail, then the executor re-emits from the last complete record
    let mut crashes = c.below(3);
    let mut disk = log.clone();
    if crashes > 0 {
        let r = c.below(ends.len());
        let a = if r == 0 { 0 } else { ends[r - 1] };
        disk.truncate(a + c.below(ends[r] - a + 1));
    }
    let mut reused = Item::Receipt(receipt(c, &s));
    loop {
        let cut = disk.len();
        let complete = ends.iter().filter(|e| **e <= cut).count();
        let torn = cut > if complete == 0 { 0 } else { ends[complete - 1] };
        if cut < log.len() {
            c.count("fault.crash_torn_write");
            c.log(|| format!("crash: {cut} bytes survive, {complete} complete records, torn: {torn}"));
        }
        c.nontrivial = true;
        let mut pos = 0;
        for (i, want) in emitted.iter().enumerate() {
            let rest = &disk[pos..];
            let got: Option<(usize, Receipt)> = match form {
                0 => {
                    let before = reused.clone();
                    let bs = reused.strict();
                    let reuse = c.chance(2, 3);
                    let r = if reuse {
                        reused.decode(rest)
                    } else {
                        let mut t = Item::blank(Ty::Receipt);
                        let r = t.decode(rest);
                        if r.is_ok() {
                            reused = t;
                        }
                        r
                    };
                    match r {
                        Ok(n) => match &reused {
                            Item::Receipt(r) => Some((n, r.clone())),
                            _ => None,
                        },
                        Err(e) => {
                            ensure!(i >= complete, "lost", "complete receipt {i} ({want:?}) refused: {e:?}");
                            ensure!(e == WErr::Eof, "wrong-error", "torn receipt gave {e:?}, not end-of-data");
                            ensure!(reused == before && reused.strict() == bs, "target-changed", "failed decode changed its target");
                            None
                        }
                    }
                }
                1 => match rest.iter().position(|b| *b == b'\n') {
                    Some(e) => serde_json::from_slice::<Receipt>(&rest[..e]).ok().map(|r| (e + 1, r)),
                    None => {
                        ensure!(rest.is_empty() || serde_json::from_slice::<Receipt>(rest).is_err() || disk.len() + 1 == ends[i], "torn-accepted", "torn JSON receipt accepted");
                        None
                    }
                },
                _ => bincode::deserialize::<Receipt>(rest).ok().map(|r| {
                    let n = bincode::serialize(&r).map(|b| b.len()).unwrap_or(0);
                    (n, r)
                }),
            };
            match got {
                Some((n, r)) => {
                    ensure!(i < complete, "torn-accepted", "receipt {i} was accepted although only {complete} were completely written");
                    ensure!(
                        strict_receipt(&r) == strict_receipt(want) && r == *want,
                        "value",
                        "receipt {i} was {want:?}, read back as {r:?} (form {form})"
                    );
                    if form != 0 {
                        ensure!(r.contract_id() == want.contract_id(), "panic-contract", "receipt {i}: contract of the panic {:?} read back as {:?}", want.contract_id(), r.contract_id());
                    }
                    let len = ends[i] - if i == 0 { 0 } else { ends[i - 1] };
                    ensure!(n == len, "consumed", "receipt {i} of {len} bytes consumed {n}");
                    c14_fields(c, &r)?;
                    pos += n;
                }
                None => {
                    ensure!(i >= complete, "lost", "complete receipt {i} ({want:?}) was not read back (form {form})");
                    break;
                }
            }
        }
        if crashes == 0 || cut == log.len() {
            break;
        }
        // recovery truncates the torn tail and the executor re-emits the rest
        crashes -= 1;
        let upto = if complete == 0 { 0 } else { ends[complete - 1] };
        disk.truncate(upto);
        let more = if crashes == 0 { log.len() } else { upto + c.below(log.len() - upto + 1) };
        disk.extend_from_slice(&log[upto..more]);
        c.tick(10);
    }
    // a record with a damaged tag
    if form == 0 {
        let mut b = enc_receipt(&emitted[0]).b;
        let t = 11 + c.draw(0) % (u64::MAX - 11);
        b[..8].copy_from_slice(&t.to_be_bytes());
        c.count("fault.tag_stomp");
        let mut x = Item::blank(Ty::Receipt);
        ensure!(x.decode(&b).is_err(), "unknown-tag", "receipt tag {t} accepted");
    }
    Ok(())
}
/// The accessors give the fields the constructor was given (through the plain pattern).
fn c14_fields(_c: &mut Ctx, r: &Receipt) -> R {
    macro_rules! eq {
        ($a:expr, $b:expr, $w:expr) => {
            ensure!($a == $b, "accessor", "{} of {r:?} reads as {:?}", $w, $a);
        };
    }
    match r {
        Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.to(), Some(to), "to");
            eq!(r.amount(), Some(*amount), "amount");
            eq!(r.asset_id(), Some(asset_id), "asset_id");
            eq!(r.gas(), Some(*gas), "gas");
            eq!(r.param1(), Some(*param1), "param1");
            eq!(r.param2(), Some(*param2), "param2");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::Return { id, val, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.val(), Some(*val), "val");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.ptr(), Some(*ptr), "ptr");
            eq!(r.len(), Some(*len), "len");
            eq!(r.digest(), Some(digest), "digest");
            eq!(r.data(), Some(&data[..]), "data");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::Panic { id, reason, pc, is, contract_id } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.reason(), Some(*reason), "reason");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
            eq!(r.contract_id(), contract_id.as_ref(), "contract_id");
        }
        Receipt::Revert { id, ra, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.ra(), Some(*ra), "ra");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::Log { id, ra, rb, rc, rd, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.ra(), Some(*ra), "ra");
            eq!(r.rb(), Some(*rb), "rb");
            eq!(r.rc(), Some(*rc), "rc");
            eq!(r.rd(), Some(*rd), "rd");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.ra(), Some(*ra), "ra");
            eq!(r.rb(), Some(*rb), "rb");
            eq!(r.ptr(), Some(*ptr), "ptr");
            eq!(r.len(), Some(*len), "len");
            eq!(r.digest(), Some(digest), "digest");
            eq!(r.data(), Some(&data[..]), "data");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::Transfer { id, to, amount, asset_id, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.to(), Some(to), "to");
            eq!(r.amount(), Some(*amount), "amount");
            eq!(r.asset_id(), Some(asset_id), "asset_id");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::TransferOut { id, to, amount, asset_id, pc, is } => {
            eq!(r.id(), Some(id), "id");
            eq!(r.to_address(), Some(to), "to_address");
            eq!(r.amount(), Some(*amount), "amount");
            eq!(r.asset_id(), Some(asset_id), "asset_id");
            eq!(r.pc(), Some(*pc), "pc");
            eq!(r.is(), Some(*is), "is");
        }
        Receipt::ScriptResult { result, gas_used } => {
            eq!(r.result(), Some(result), "result");
            eq!(r.gas_used(), Some(*gas_used), "gas_used");
        }
        Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
            eq!(r.message_id(), Some(message_id), "message_id");
            eq!(r.sender(), Some(sender), "sender");
            eq!(r.recipient(), Some(recipient), "recipient");
            eq!(r.amount(), Some(*amount), "amount");
            eq!(r.nonce(), Some(nonce), "nonce");
            eq!(r.len(), Some(*len), "len");
            eq!(r.digest(), Some(digest), "digest");
            eq!(r.data(), Some(&data[..]), "data");
        }
    }
    Ok(())
}
