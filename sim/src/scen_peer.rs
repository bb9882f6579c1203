//! C17: parties built with and without the standard library.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::node::{self, Form, Kd, Node, Rep, Req, Val, FORMS};
use crate::scen_misc::*;
use crate::Scenario;
use fuel_tx::*;
use std::collections::BTreeMap;
use std::ffi::{c_void, CString};

pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        id: "C17",
        f: c17_peers,
        quick: 40_000,
        what: "parties whose library is built with the standard library and parties whose library is built without it (a second build of the same tree, loaded into the same process) pass values to each other in every serialised form over a lossy, duplicating, reordering, damaging network, keep them in their stores, crash with torn tails and restart, rework them and are asked the same questions",
        real: "both builds: serde forms, check_without_signatures, positions, fees, roots, accessors, text forms, constructors, prepare_init_predicate, add_unsigned_*",
        stub: "network and stores (simulated); the allocator and panic handler under the no-std build are the host's",
    }]
}

// ------------------------------------------------------------------ the loaded peer
type NewFn = extern "C" fn() -> *mut c_void;
type DropFn = unsafe extern "C" fn(*mut c_void);
type CallFn = unsafe extern "C" fn(*mut c_void, *const u8, usize, *mut c_void, extern "C" fn(*mut c_void, *const u8, usize)) -> i32;
#[derive(Clone, Copy)]
struct Lib {
    new: NewFn,
    drop: DropFn,
    call: CallFn,
}
thread_local! {
    static LIB: Lib = open();
}
fn open() -> Lib {
    let exe = std::env::current_exe().expect("exe");
    let path = exe.with_file_name("libpeer.so");
    let name = CString::new(path.to_str().expect("path")).expect("path");
    // Safety: our own library, built from /verif/peer
    unsafe {
        let h = libc::dlopen(name.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        assert!(!h.is_null(), "cannot load {}", path.display());
        let sym = |n: &str| {
            let n = CString::new(n).unwrap();
            let p = libc::dlsym(h, n.as_ptr());
            assert!(!p.is_null(), "no {n:?} in the peer");
            p
        };
        let init: extern "C" fn() = std::mem::transmute(sym("peer_init"));
        init();
        Lib {
            new: std::mem::transmute::<*mut c_void, NewFn>(sym("peer_new")),
            drop: std::mem::transmute::<*mut c_void, DropFn>(sym("peer_drop")),
            call: std::mem::transmute::<*mut c_void, CallFn>(sym("peer_call")),
        }
    }
}
extern "C" fn take(out: *mut c_void, p: *const u8, n: usize) {
    // Safety: `out` is the vector given to the call
    unsafe { (*(out as *mut Vec<u8>)).extend_from_slice(std::slice::from_raw_parts(p, n)) }
}
struct Small {
    lib: Lib,
    h: *mut c_void,
}
impl Small {
    fn new() -> Small {
        let lib = LIB.with(|l| *l);
        Small { lib, h: (lib.new)() }
    }
}
impl Drop for Small {
    fn drop(&mut self) {
        // Safety: made by peer_new
        unsafe { (self.lib.drop)(self.h) }
    }
}
enum Party {
    Full(Node),
    Small(Small),
}
impl Party {
    fn start(small: bool) -> Party {
        if small {
            Party::Small(Small::new())
        } else {
            Party::Full(Node::default())
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Party::Full(_) => "std",
            Party::Small(_) => "no-std",
        }
    }
    fn ask(&mut self, q: &Req) -> R<Rep> {
        let b = bincode::serialize(q).expect("request");
        match self {
            Party::Full(n) => Ok(bincode::deserialize(&n.call(&b)).expect("reply")),
            Party::Small(s) => {
                let mut out: Vec<u8> = vec![];
                // Safety: made by peer_new
                let code = unsafe { (s.lib.call)(s.h, b.as_ptr(), b.len(), &mut out as *mut _ as *mut c_void, take) };
                if code != 0 {
                    let mut q = format!("{q:?}");
                    q.truncate(q.char_indices().nth(300).map(|x| x.0).unwrap_or(q.len()));
                    return viol("panic-no-std", format!("the no-std build panicked: {} on {q}", String::from_utf8_lossy(&out)));
                }
                Ok(bincode::deserialize(&out).expect("reply"))
            }
        }
    }
}
/// What the full build answers for a value the simulator holds.
fn reference(v: &Val, q: impl FnOnce(usize) -> Req) -> Rep {
    let mut n = Node::default();
    n.vals.insert(0, v.clone());
    n.serve(q(0))
}
fn diff(a: &node::Report, b: &node::Report) -> String {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return format!("{}: {} / {}: {}", x.0, x.1, y.0, y.1);
        }
    }
    format!("{} / {} answers", a.len(), b.len())
}
fn class_of(a: &node::Report, b: &node::Report) -> String {
    a.iter()
        .zip(b)
        .find(|(x, y)| x != y)
        .map(|(x, _)| x.0.chars().filter(|c| !c.is_ascii_digit()).collect())
        .unwrap_or_else(|| "count".into())
}
fn snap_val(v: &Val) -> Option<M> {
    item_val(v).and_then(|i| i.snap())
}
fn dup_kind(e: &CheckError) -> u8 {
    match e {
        CheckError::DuplicateInputUtxoId { .. } => 1,
        CheckError::DuplicateInputContractId { .. } => 2,
        CheckError::DuplicateMessageInputId { .. } => 3,
        _ => 0,
    }
}
struct Cell {
    val: Val,
    /// what this party wrote to its store
    rec: Option<(Form, Vec<u8>)>,
}

fn some_val(c: &mut Ctx, s: &Swarm, p: &ConsensusParameters, h: u64) -> Val {
    if c.chance(1, 2) {
        // a transaction aimed at the rules
        let k = kind(c);
        let mut m = valid_tx(c, s, p, h, k);
        for _ in 0..*c.pick(&[0usize, 0, 1, 1, 2]) {
            rule_mutation(c, s, &mut m, p, h);
        }
        let it = crate::scen_id::item_of(c, &m);
        return val_of(it);
    }
    let kd = any_kd(c);
    any_val(c, s, kd)
}

fn c17_peers(c: &mut Ctx) -> R {
    let s = swarm(c);
    let p = params(c);
    let h = c.draw(40);
    let n = 2 + c.below(3);
    let small: Vec<bool> = (0..n).map(|i| if i == 0 { false } else if i == 1 { true } else { c.chance(1, 2) }).collect();
    let mut ps: Vec<Party> = small.iter().map(|s| Party::start(*s)).collect();
    let mut held: Vec<BTreeMap<usize, Cell>> = (0..n).map(|_| BTreeMap::new()).collect();
    let mut net = Net::swarm(c, true);
    // messages in flight: tag -> (kind, form, value)
    let mut sent: Vec<(Kd, Form, Val)> = vec![];
    let mut next_slot = 0usize;
    let steps = 4 + c.below(16);
    for _ in 0..steps {
        c.mark();
        c.tick(1);
        // deliveries due
        while net.q.iter().any(|q| q.at <= c.ticks) {
            let Some(pk) = net.next(c) else { break };
            deliver(c, &mut ps, &mut held, &sent, pk, &mut next_slot)?;
        }
        let who = c.below(n);
        let mine: Vec<usize> = held[who].keys().copied().collect();
        let act = c.below(20);
        if mine.is_empty() || act < 3 {
            // a new value enters through the full build's forms
            let v = some_val(c, &s, &p, h);
            let form = *c.pick(&FORMS);
            let Some(bytes) = node::store(&v, form) else { return viol("store-refused", format!("{form:?} form refused")) };
            let slot = next_slot;
            next_slot += 1;
            c.note(mix(v.kd() as u64, 1000 + form as u64));
            c.log(|| format!("{who} ({}) is given {} {slot} in {form:?} form", ps[who].name(), brief(&v)));
            let r = ps[who].ask(&Req::Load { slot, kd: v.kd(), form, bytes: bytes.clone() })?;
            ensure!(r == Rep::Done(true), "load-refused", "the {} party refuses {} in {form:?} form written by the std build", ps[who].name(), brief(&v));
            held[who].insert(slot, Cell { val: v, rec: None });
            verify(&mut ps[who], &held[who], slot, *c.pick(&FORMS))?;
            continue;
        }
        let slot = *c.pick(&mine);
        let v = held[who][&slot].val.clone();
        let name = ps[who].name();
        c.note(mix(act as u64, v.kd() as u64));
        match act {
            3..=6 => {
                let to = c.below(n);
                let form = *c.pick(&FORMS);
                let bytes = bytes_of(&mut ps[who], slot, form, &v)?;
                let tag = sent.len() as u64;
                c.log(|| format!("{who} ({name}) sends {slot} to {to} in {form:?} form"));
                sent.push((v.kd(), form, v));
                net.send(c, who, to, bytes, tag);
            }
            7..=9 => {
                // questions
                c.nontrivial = true;
                let q = |slot| Req::Report { slot, height: h, params: p };
                let got = ps[who].ask(&q(slot))?;
                let mut w = v.clone();
                if c.chance(1, 2) {
                    if let Some(mut it) = item_val(&w) {
                        it.precompute();
                        w = val_of(it);
                    }
                }
                let want = reference(&w, q);
                if let (Rep::Report(a), Rep::Report(b)) = (&want, &got) {
                    ensure!(a == b, format!("answer:{}", class_of(a, b)), "std and {name} answer differently on {}: {}", brief(&v), diff(a, b));
                } else {
                    ensure!(got == want, "answer", "std answers {want:?}, {name} {got:?}");
                }
            }
            10..=12 => {
                let (hh, pp) = if c.chance(1, 3) { (c.draw(60), params(c)) } else { (h, p) };
                verdict(&mut ps[who], slot, &v, hh, &pp)?;
                if snap_val(&v).is_some() {
                    c.nontrivial = true;
                    c.count("verdicts");
                }
            }
            13 => {
                // rework the value
                let q: Box<dyn Fn(usize) -> Req> = match c.below(4) {
                    0 => Box::new(|slot| Req::Prepare { slot }),
                    1 => Box::new(|slot| Req::Rebuild { slot }),
                    2 => {
                        let (a, b, n, m, d) = (id32(c, &s), id32(c, &s), word(c), word(c), blob(c, &s));
                        Box::new(move |slot| Req::AddMessage { slot, sender: a.into(), recipient: b.into(), nonce: n, amount: m, data: d.clone() })
                    }
                    _ => {
                        let k = key(c.below(KEYS)).1.as_ref().to_vec();
                        let (u, m, a, t, y) = (utxo(c, &s), word(c), asset(c, &s), ptr(c), word(c));
                        Box::new(move |slot| Req::AddCoin { slot, key: k.clone(), utxo: u, amount: m, asset: a, ptr: t, maturity: y })
                    }
                };
                if snap_val(&v).is_some_and(|m| m.witnesses.len() >= 255) {
                    continue;
                }
                let got = ps[who].ask(&q(slot))?;
                let mut r = Node::default();
                r.vals.insert(0, v.clone());
                let want = r.serve(q(0));
                ensure!(got == want, "rework", "std answers {want:?}, {name} {got:?} to a rework of {}", brief(&v));
                let w = r.vals.remove(&0).unwrap();
                if let Req::Rebuild { .. } = q(0) {
                    if !matches!(v, Val::Receipt(_) | Val::Error(_)) {
                        same_val(&w, &v, "value taken apart and built again")?;
                    }
                }
                held[who].insert(slot, Cell { val: w, rec: None });
                verify(&mut ps[who], &held[who], slot, Form::Bincode)?;
                c.count("reworked");
            }
            14 => {
                // written to the party's own store
                let form = *c.pick(&FORMS);
                let b = bytes_of(&mut ps[who], slot, form, &v)?;
                held[who].get_mut(&slot).unwrap().rec = Some((form, b));
            }
            15 => restart(c, &mut ps[who], &mut held[who], small[who])?,
            16 => {
                let code = blob(c, &s);
                let salt = id32(c, &s);
                let k = c.below(6);
                let slots: Vec<StorageSlot> = (0..k).map(|_| slot_of(c, &s)).collect();
                let q = || Req::Roots { code: code.clone(), salt: salt.into(), slots: slots.clone() };
                both(&mut ps[who], q)?;
                c.nontrivial = true;
            }
            17 => {
                let t = text(c, &v);
                both(&mut ps[who], || Req::Text { s: t.clone() })?;
            }
            18 => {
                let p = any_params(c);
                let (b, l, pr, g, ba) = (word(c), word(c), word(c), word(c), word(c));
                both(&mut ps[who], || Req::Fees { params: p, bytes: b, limit: l, price: pr, gas: g, balance: ba })?;
                c.nontrivial = true;
            }
            _ => {
                let other = *c.pick(&mine);
                let got = ps[who].ask(&Req::Same { a: slot, b: other })?;
                let want = v == held[who][&other].val;
                ensure!(got == Rep::Done(want), "equality", "std says equality of two values is {want}, {name} disagrees");
            }
        }
    }
    // faults stop: everything in flight arrives, and everybody agrees about everything
    net.heal();
    while let Some(pk) = net.next(c) {
        deliver(c, &mut ps, &mut held, &sent, pk, &mut next_slot)?;
    }
    for i in 0..n {
        let slots: Vec<usize> = held[i].keys().copied().collect();
        for slot in slots {
            verify(&mut ps[i], &held[i], slot, Form::Bincode)?;
        }
    }
    Ok(())
}
fn slot_of(c: &mut Ctx, s: &Swarm) -> StorageSlot {
    slot(&(id32(c, s), id32(c, s)))
}
fn brief(v: &Val) -> String {
    let mut s = item_val(v).map(|i| i.describe()).unwrap_or_else(|| format!("{v:?}"));
    s.truncate(s.char_indices().nth(700).map(|x| x.0).unwrap_or(s.len()));
    s
}
/// The party's serialised form, which must be the full build's.
fn bytes_of(p: &mut Party, slot: usize, form: Form, v: &Val) -> R<Vec<u8>> {
    let Some(want) = node::store(v, form) else { return viol("store-refused", format!("{form:?} form refused")) };
    match p.ask(&Req::Store { slot, form })? {
        Rep::Bytes(b) => {
            ensure!(b == want, "form", "the {} party's {form:?} form of {} differs from the std build's", p.name(), brief(v));
            Ok(b)
        }
        r => viol("store-refused", format!("the {} party answers {r:?} when asked for the {form:?} form", p.name())),
    }
}
fn verify(p: &mut Party, held: &BTreeMap<usize, Cell>, slot: usize, form: Form) -> R {
    bytes_of(p, slot, form, &held[&slot].val).map(|_| ())
}
fn both(p: &mut Party, q: impl Fn() -> Req) -> R {
    let got = p.ask(&q())?;
    let want = Node::default().serve(q());
    if let (Rep::Report(a), Rep::Report(b)) = (&want, &got) {
        ensure!(a == b, format!("answer:{}", class_of(a, b)), "std and {} answer differently: {}", p.name(), diff(a, b));
    }
    ensure!(got == want, "answer", "std answers {want:?}, {} {got:?}", p.name());
    Ok(())
}
fn verdict(pt: &mut Party, slot: usize, v: &Val, h: u64, p: &ConsensusParameters) -> R {
    let q = |slot| Req::Check { slot, height: h, params: *p };
    let got = pt.ask(&q(slot))?;
    let want = reference(v, q);
    match (&got, &want) {
        (Rep::Verdict(g), Rep::Verdict(w)) => {
            ensure!(g.is_ok() == w.is_ok(), "verdict", "std says {w:?}, {} says {g:?} at height {h} under {p:?}: {}", pt.name(), brief(v));
            if let (Err(g), Err(w)) = (g, w) {
                if g != w {
                    // which of several broken rules is named first may differ, but each is broken
                    let Some(m) = snap_val(v) else { return viol("HARNESS", "no transaction") };
                    let allowed = broken_rules(&m, h, p);
                    ensure!(
                        names_broken_rule(g, &allowed) && (dup_kind(g) == dup_kind(w) || allowed.len() > 1),
                        "verdict-reason",
                        "std says {w:?}, {} says {g:?}; broken are {allowed:?}: {}",
                        pt.name(),
                        brief(v)
                    );
                }
            }
        }
        _ => ensure!(got == want, "verdict", "std answers {want:?}, {} {got:?}", pt.name()),
    }
    Ok(())
}
fn deliver(
    c: &mut Ctx,
    ps: &mut [Party],
    held: &mut [BTreeMap<usize, Cell>],
    sent: &[(Kd, Form, Val)],
    pk: Packet,
    next_slot: &mut usize,
) -> R {
    let (kd, form, v) = &sent[pk.tag as usize];
    let slot = *next_slot;
    *next_slot += 1;
    let to = pk.to;
    let name = ps[to].name();
    let r = ps[to].ask(&Req::Load { slot, kd: *kd, form: *form, bytes: pk.bytes.clone() })?;
    c.nontrivial = true;
    if !pk.damaged {
        ensure!(r == Rep::Done(true), "load-refused", "the {name} party refuses {} in {form:?} form", brief(v));
        held[to].insert(slot, Cell { val: v.clone(), rec: None });
        let f = *c.pick(&FORMS);
        verify(&mut ps[to], &held[to], slot, f)?;
    } else {
        // damaged: both builds read the same bytes the same way
        let want = node::load(*kd, *form, &pk.bytes);
        ensure!(
            r == Rep::Done(want.is_some()),
            "damaged-verdict",
            "std {} damaged {form:?} bytes of {kd:?}, {name} does not agree",
            if want.is_some() { "accepts" } else { "refuses" }
        );
        if let Some(w) = want {
            c.count("damaged_accepted");
            held[to].insert(slot, Cell { val: w, rec: None });
            verify(&mut ps[to], &held[to], slot, Form::Bincode)?;
        }
    }
    Ok(())
}
fn restart(c: &mut Ctx, p: &mut Party, held: &mut BTreeMap<usize, Cell>, small: bool) -> R {
    c.count("fault.crash");
    c.log(|| format!("a {} party crashes and restarts", p.name()));
    *p = Party::start(small);
    let mut kept = BTreeMap::new();
    for (slot, cell) in std::mem::take(held) {
        let Some((form, b)) = cell.rec.clone() else { continue };
        if b.len() > 1 && c.chance(1, 5) {
            // torn while being written
            let k = c.below(b.len());
            c.count("fault.crash_torn_write");
            let r = p.ask(&Req::Load { slot, kd: cell.val.kd(), form, bytes: b[..k].to_vec() })?;
            let want = node::load(cell.val.kd(), form, &b[..k]).is_some();
            ensure!(r == Rep::Done(want) && !want, "torn-accepted", "{k} of {} bytes of a {:?} record: {r:?} from the {} party", b.len(), cell.val.kd(), p.name());
            continue;
        }
        let r = p.ask(&Req::Load { slot, kd: cell.val.kd(), form, bytes: b })?;
        ensure!(r == Rep::Done(true), "load-refused", "the {} party refuses its own {form:?} record of {}", p.name(), brief(&cell.val));
        kept.insert(slot, cell);
        verify(p, &kept, slot, Form::Bincode)?;
    }
    *held = kept;
    Ok(())
}
/// Text that is nearly an identifier or a transaction.
fn text(c: &mut Ctx, v: &Val) -> String {
    let mut t = match v {
        Val::Utxo(x) => format!("{x:#x}"),
        Val::Ptr(x) => format!("{x:x}"),
        Val::Tx(t) => t.to_json(),
        _ => {
            let n = *c.pick(&[0usize, 1, 2, 3, 11, 12, 13, 64, 65, 66, 67, 68]);
            let mut b = vec![0; n];
            c.fill(&mut b);
            let hex = b"0123456789abcdefABCDEFx g";
            b.iter().map(|x| if c.chance(1, 30) { hex[*x as usize % 25] } else { hex[*x as usize % 16] } as char).collect()
        }
    };
    for _ in 0..c.below(3) {
        let b = unsafe { t.as_mut_vec() };
        match c.below(4) {
            0 if !b.is_empty() => {
                let k = c.below(b.len());
                b.truncate(k);
            }
            1 => {
                let k = c.below(b.len() + 1);
                let x = *c.pick(b"0fF9 x{}\",");
                b.insert(k, x);
            }
            2 if !b.is_empty() => {
                let k = c.below(b.len());
                b.remove(k);
            }
            _ => b.splice(0..0, *b"0x").for_each(drop),
        }
        if std::str::from_utf8(b).is_err() {
            b.clear();
        }
    }
    t
}
