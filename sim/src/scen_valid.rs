//! C09–C13: validity, authorisation, conservation, checked transactions, fees.
use crate::core::*;
use crate::gen::*;
use crate::item::*;
use crate::model::*;
use crate::scen_id::*;
use crate::Scenario;
use fuel_tx::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario {
            id: "C09",
            f: c09_verdicts,
            quick: 500_000,
            what: "transactions aimed at the rules and their bounds are gossiped between nodes with their own limits and heights over a lossy, duplicating, reordering network in wire, JSON and bincode form; nodes restart, heights advance, jump and reorganise; each node checks what it holds through a seeded entry point and every verdict is compared with the rules",
            real: "check, check_without_signatures, check_signatures, into_checked(_basic) of Transaction, Script, Create, Mint; Input::check*, Output::check; codecs; precompute",
            stub: "network, store, chain height (simulated), rule model (independent)",
        },
        Scenario {
            id: "C10",
            f: c10_sign,
            quick: 90_000,
            what: "a coordinator collects signatures from wallets over a faulty network, in seeded order and repetition, with stale replies and restarts; then attackers tamper with witnesses, fields, owners and predicates and replay signatures of other transactions; every verdict is compared with the authorisation rule",
            real: "sign_inputs, check_signatures, Input::check_signature, check_predicate_owners, is_predicate_owner_valid, into_checked, codecs",
            stub: "network and store (simulated), authorisation model (fuel-crypto recovery, independent id and roots)",
        },
        Scenario {
            id: "C11",
            f: c11_ledger,
            quick: 400_000,
            what: "honest and cheating wallets spend from a ledger over a duplicating, reordering network; nodes admit by checking, crash between check and settlement, recover and settle; supply per asset is summed in 128 bits after every block",
            real: "into_checked(_basic), check metadata (free balances, fee), codecs",
            stub: "ledger, network and store (simulated), balance model (independent)",
        },
        Scenario {
            id: "C12",
            f: c12_checked,
            quick: 400_000,
            what: "a set of checked values goes through a seeded history of checking, further checking, cloning, conversion between the specific and general forms, unpacking, storing and re-checking after restarts at other heights and limits; each is compared with a model of what was passed",
            real: "Checked, CheckedTransaction, CheckedMetadata, IntoChecked, check_signatures, codecs",
            stub: "store (simulated), rule, authorisation and balance models (independent)",
        },
        Scenario {
            id: "C13",
            f: c13_fees,
            quick: 900_000,
            what: "accounts are charged maximum fees and refunded unused gas under parameters and prices that change between blocks; settlement crashes between charge and refund and is redone from a durable record; total value is conserved to rounding and every amount equals the exact rational value rounded as published",
            real: "TransactionFee (all operations), Chargeable of Script and Create, serde form of fees",
            stub: "accounts, store (simulated), fee model in 128 bits (independent)",
        },
    ]
}

// ------------------------------------------------------------------ verdicts
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Path {
    Static,
    Full,
    Signatures,
    IntoBasic,
    Into,
}
const PATHS: [Path; 8] =
    [Path::Static, Path::IntoBasic, Path::Static, Path::Full, Path::Into, Path::Signatures, Path::IntoBasic, Path::Static];

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub balances: BTreeMap<AssetId, u64>,
    pub height: u64,
    pub fee: TransactionFee,
}
#[derive(Clone, Debug)]
pub struct Passed {
    pub bits: u32,
    pub meta: Option<Meta>,
    pub snap: M,
    pub computed: bool,
}
fn meta_s(m: &ScriptCheckedMetadata) -> Option<Meta> {
    Some(Meta { balances: m.initial_free_balances.clone(), height: m.block_height, fee: m.fee })
}
fn meta_c(m: &CreateCheckedMetadata) -> Option<Meta> {
    Some(Meta { balances: m.initial_free_balances.clone(), height: m.block_height, fee: m.fee })
}
fn meta_t(m: &CheckedMetadata) -> Option<Meta> {
    match m {
        CheckedMetadata::Script(m) => meta_s(m),
        CheckedMetadata::Create(m) => meta_c(m),
        CheckedMetadata::Mint(()) => None,
    }
}
/// A checked value in one of its forms.
#[derive(Clone, PartialEq, Debug)]
pub enum Ck {
    Script(Checked<Script>),
    Create(Checked<Create>),
    Mint(Checked<Mint>),
    Tx(Checked<Transaction>),
    Enum(CheckedTransaction),
}
impl Ck {
    pub fn passed(&self) -> Passed {
        match self {
            Ck::Script(x) | Ck::Enum(CheckedTransaction::Script(x)) => Passed {
                bits: x.checks().bits(),
                meta: meta_s(x.metadata()),
                snap: snap_script(x.transaction()),
                computed: x.transaction().is_computed(),
            },
            Ck::Create(x) | Ck::Enum(CheckedTransaction::Create(x)) => Passed {
                bits: x.checks().bits(),
                meta: meta_c(x.metadata()),
                snap: snap_create(x.transaction()),
                computed: x.transaction().is_computed(),
            },
            Ck::Mint(x) | Ck::Enum(CheckedTransaction::Mint(x)) => Passed {
                bits: x.checks().bits(),
                meta: None,
                snap: snap_mint(x.transaction()),
                computed: x.transaction().is_computed(),
            },
            Ck::Tx(x) => Passed {
                bits: x.checks().bits(),
                meta: meta_t(x.metadata()),
                snap: snap(x.transaction()),
                computed: x.transaction().is_computed(),
            },
        }
    }
    /// do the other views of the wrapper show the same transaction?
    pub fn views_agree(&self) -> bool {
        macro_rules! views {
            ($x:expr, $t:ty, $snap:ident) => {{
                let a: &$t = $x.as_ref();
                let b: &$t = std::borrow::Borrow::borrow($x);
                let w = strict(&$snap($x.transaction()));
                strict(&$snap(a)) == w && strict(&$snap(b)) == w
            }};
        }
        match self {
            Ck::Script(x) | Ck::Enum(CheckedTransaction::Script(x)) => views!(x, Script, snap_script),
            Ck::Create(x) | Ck::Enum(CheckedTransaction::Create(x)) => views!(x, Create, snap_create),
            Ck::Mint(x) | Ck::Enum(CheckedTransaction::Mint(x)) => views!(x, Mint, snap_mint),
            Ck::Tx(x) => views!(x, Transaction, snap),
        }
    }
    pub fn more(self) -> Result<Ck, CheckError> {
        Ok(match self {
            Ck::Script(x) => Ck::Script(x.check_signatures()?),
            Ck::Create(x) => Ck::Create(x.check_signatures()?),
            Ck::Mint(x) => Ck::Mint(x.check_signatures()?),
            Ck::Tx(x) => Ck::Tx(x.check_signatures()?),
            Ck::Enum(CheckedTransaction::Script(x)) => Ck::Enum(CheckedTransaction::Script(x.check_signatures()?)),
            Ck::Enum(CheckedTransaction::Create(x)) => Ck::Enum(CheckedTransaction::Create(x.check_signatures()?)),
            Ck::Enum(CheckedTransaction::Mint(x)) => Ck::Enum(CheckedTransaction::Mint(x.check_signatures()?)),
        })
    }
    /// change of form: specific -> enum -> general -> enum -> specific
    pub fn convert(self, to: usize) -> Ck {
        let e: CheckedTransaction = match self {
            Ck::Script(x) => x.into(),
            Ck::Create(x) => x.into(),
            Ck::Mint(x) => x.into(),
            Ck::Tx(x) => x.into(),
            Ck::Enum(x) => x,
        };
        match (to, e) {
            (0, e) => Ck::Enum(e),
            (1, e) => Ck::Tx(e.into()),
            (_, CheckedTransaction::Script(x)) => Ck::Script(x),
            (_, CheckedTransaction::Create(x)) => Ck::Create(x),
            (_, CheckedTransaction::Mint(x)) => Ck::Mint(x),
        }
    }
    /// the content, with its metadata, out of the wrapper
    pub fn unpack(self) -> (Item, Option<Meta>) {
        match self {
            Ck::Script(x) | Ck::Enum(CheckedTransaction::Script(x)) => {
                let (t, m): (Script, ScriptCheckedMetadata) = x.into();
                (Item::Script(t), meta_s(&m))
            }
            Ck::Create(x) | Ck::Enum(CheckedTransaction::Create(x)) => {
                let (t, m): (Create, CreateCheckedMetadata) = x.into();
                (Item::Create(t), meta_c(&m))
            }
            Ck::Mint(x) | Ck::Enum(CheckedTransaction::Mint(x)) => {
                let (t, ()): (Mint, ()) = x.into();
                (Item::Mint(t), None)
            }
            Ck::Tx(x) => {
                let (t, m): (Transaction, CheckedMetadata) = x.into();
                (Item::Tx(t), meta_t(&m))
            }
        }
    }
}
pub fn into_ck(it: Item, full: bool, h: u64, p: &ConsensusParameters) -> Result<Ck, CheckError> {
    Ok(match (it, full) {
        (Item::Script(t), true) => Ck::Script(t.into_checked(h, p)?),
        (Item::Create(t), true) => Ck::Create(t.into_checked(h, p)?),
        (Item::Mint(t), true) => Ck::Mint(t.into_checked(h, p)?),
        (Item::Tx(t), true) => Ck::Tx(t.into_checked(h, p)?),
        (Item::Script(t), false) => Ck::Script(t.into_checked_basic(h, p)?),
        (Item::Create(t), false) => Ck::Create(t.into_checked_basic(h, p)?),
        (Item::Mint(t), false) => Ck::Mint(t.into_checked_basic(h, p)?),
        (Item::Tx(t), false) => Ck::Tx(t.into_checked_basic(h, p)?),
        _ => unreachable!("not a transaction"),
    })
}
pub fn run_path(it: &Item, path: Path, h: u64, p: &ConsensusParameters) -> Result<Option<Passed>, CheckError> {
    macro_rules! by_ref {
        ($f:ident ( $($a:expr),* )) => {
            match it {
                Item::Tx(t) => t.$f($($a),*),
                Item::Script(t) => t.$f($($a),*),
                Item::Create(t) => t.$f($($a),*),
                Item::Mint(t) => t.$f($($a),*),
                _ => unreachable!("not a transaction"),
            }
        };
    }
    match path {
        Path::Static => by_ref!(check_without_signatures(h, p)).map(|_| None),
        Path::Full => by_ref!(check(h, p)).map(|_| None),
        Path::Signatures => by_ref!(check_signatures()).map(|_| None),
        Path::IntoBasic => into_ck(it.clone(), false, h, p).map(|x| Some(x.passed())),
        Path::Into => into_ck(it.clone(), true, h, p).map(|x| Some(x.passed())),
    }
}
#[derive(Debug)]
pub struct Expect {
    /// None: either answer is fine
    pub ok: Option<bool>,
    pub allowed: Vec<CheckError>,
    pub meta: Option<Meta>,
    pub bits: u32,
}
/// What the rules say about checking `m` this way.
pub fn expect(m: &M, path: Path, h: u64, p: &ConsensusParameters) -> Expect {
    let mut allowed = vec![];
    let mut either = false;
    let mut meta = None;
    if path != Path::Signatures {
        allowed = broken_rules(m, h, p);
        if matches!(path, Path::IntoBasic | Path::Into) && m.kind != Kind::Mint {
            match balances(m, p) {
                Bal::Ok(b, f) => meta = Some(Meta { balances: b, height: h, fee: TransactionFee::new(f.bytes, f.total, f.min_gas, f.max_gas) }),
                Bal::Refused(e) => allowed.extend(e),
                Bal::Either(b, f) => {
                    either = true;
                    meta = Some(Meta { balances: b, height: h, fee: TransactionFee::new(f.bytes, f.total, f.min_gas, f.max_gas) });
                }
            }
        }
    }
    // (with a broken rule the verdict is settled; which rule is named first is not specified)
    if matches!(path, Path::Full | Path::Into | Path::Signatures) && m.kind != Kind::Mint {
        allowed.extend(auth_errors(m, &id(m)));
    }
    let ok = if !allowed.is_empty() {
        Some(false)
    } else if either {
        None
    } else {
        Some(true)
    };
    if either {
        allowed.push(CheckError::ArithmeticOverflow);
    }
    let bits = if path == Path::Into { 3 } else { 1 };
    Expect { ok, allowed, meta, bits }
}
fn err_name(e: &CheckError) -> String {
    format!("{e:?}").split(['{', '(', ' ']).next().unwrap_or("?").to_string()
}
/// Compare a verdict with the rules.
pub fn judge(m: &M, path: Path, h: u64, p: &ConsensusParameters, got: &Result<Option<Passed>, CheckError>) -> R {
    let e = expect(m, path, h, p);
    match got {
        Ok(x) => {
            if e.ok == Some(false) {
                return viol(
                    format!("accepted:{}", err_name(&e.allowed[0])),
                    format!("{path:?} at height {h} accepts a transaction that breaks {:?}: {}", e.allowed, describe(m)),
                );
            }
            if let Some(x) = x {
                compare_passed(m, x, &e.meta, e.bits, &format!("{path:?}"))?;
            }
        }
        Err(g) => {
            // a service reports the rejection as an I/O error
            let io = std::io::Error::from(g.clone());
            let inner = io.get_ref().and_then(|x| x.downcast_ref::<CheckError>());
            ensure!(inner == Some(g), "reported", "the rejection {g:?} is reported as {io:?}");
            if e.ok == Some(true) {
                return viol(
                    format!("refused:{}", err_name(g)),
                    format!("{path:?} at height {h} refuses a transaction that breaks no rule: {g:?}: {}", describe(m)),
                );
            }
            ensure!(
                names_broken_rule(g, &e.allowed),
                format!("misnamed:{}", err_name(g)),
                "{path:?} at height {h} refuses with {g:?}, which is not broken; broken are {:?}: {}",
                e.allowed,
                describe(m)
            );
        }
    }
    Ok(())
}
pub fn compare_passed(m: &M, x: &Passed, meta: &Option<Meta>, bits: u32, when: &str) -> R {
    ensure!(strict(&x.snap) == strict(m), "checked-content", "{when}: the checked transaction is not the one submitted: {} became {}", describe(m), describe(&x.snap));
    ensure!(x.bits == bits, "checked-record", "{when}: record lists checks {:#b}, passed were {bits:#b}: {}", x.bits, describe(m));
    ensure!(x.computed, "checked-underived", "{when}: derived data of the checked transaction is not computed: {}", describe(m));
    if m.kind != Kind::Mint {
        match (&x.meta, meta) {
            (Some(g), Some(w)) => {
                ensure!(g.balances == w.balances, "checked-balances", "{when}: free balances {:?}, the rules give {:?}: {}", g.balances, w.balances, describe(m));
                ensure!(g.height == w.height, "checked-height", "{when}: height {} recorded, checked at {}", g.height, w.height);
                ensure!(g.fee == w.fee, "checked-fee", "{when}: fee {:?}, the rules give {:?}: {}", g.fee, w.fee, describe(m));
            }
            (g, w) => {
                return viol("checked-metadata", format!("{when}: metadata {g:?} where the rules give {w:?}"));
            }
        }
    }
    Ok(())
}

/// a transaction aimed at the rules under p at h
fn aimed(c: &mut Ctx, s: &Swarm, p: &ConsensusParameters, h: u64, sign: bool) -> M {
    let k = kind(c);
    let mut m = valid_tx(c, s, p, h, k);
    let n = *c.pick(&[0usize, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        c.mark();
        let l = rule_mutation(c, s, &mut m, p, h);
        c.log(|| format!("aimed at: {l}"));
        c.note(hash_bytes(l.as_bytes()));
    }
    if sign {
        sign_model(&mut m);
    }
    m
}

fn c09_verdicts(c: &mut Ctx) -> R {
    let s = swarm(c);
    let n = c.range(1, 3);
    struct Node {
        p: ConsensusParameters,
        h: u64,
        held: Vec<(Item, M)>,
        disk: Vec<(Ty, Codec, Vec<u8>, M)>,
    }
    let h0 = match c.below(4) {
        0 => c.draw(5),
        1 => u32::MAX as u64 - c.draw(3),
        2 => c.draw(1 << 32),
        _ => c.draw(100),
    };
    let p0 = params(c);
    let mut nodes: Vec<Node> = (0..n)
        .map(|i| {
            let p = if i == 0 || c.chance(1, 2) { p0 } else { params(c) };
            Node { p, h: h0, held: vec![], disk: vec![] }
        })
        .collect();
    let mut net = Net::swarm(c, false);
    let signed = c.chance(1, 4);
    let mut sent: Vec<M> = vec![];
    let steps = c.range(3, 14);
    for _ in 0..steps {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        while net.q.iter().any(|q| q.at <= c.ticks) {
            let Some(q) = net.next(c) else { break };
            let (ty, codec) = (TYPES[(q.tag % 16) as usize], CODECS[(q.tag / 16 % 4) as usize]);
            let m = sent[(q.tag / 64) as usize].clone();
            let it = de(ty, codec, &q.bytes).or_else(|e| viol("relay-refused", format!("{ty:?} in {codec:?} form refused: {e}: {}", describe(&m))))?;
            nodes[q.to].held.push((it, m));
        }
        let who = c.below(n);
        let act = c.below(12);
        c.note(act as u64 + 31);
        match act {
            0..=2 => {
                // a client submits
                let (p, h) = (nodes[who].p, nodes[who].h);
                let mut m = aimed(c, &s, &p, h, signed);
                if c.chance(1, 120) {
                    let l = crowd(c, &s, &mut m, &mut nodes[who].p);
                    c.log(|| format!("crowded: {l}"));
                    c.count("crowded transactions");
                    if signed {
                        sign_model(&mut m);
                    }
                }
                c.note(shape(&m));
                let it = item_of(c, &m);
                sent.push(m.clone());
                if c.chance(1, 3) {
                    // and relays
                    let mut x = it.clone();
                    let k = codec_for(c, &x);
                    let b = ser(&mut x, k)?;
                    let tag = TYPES.iter().position(|t| *t == x.ty()).unwrap() as u64
                        + 16 * CODECS.iter().position(|y| *y == k).unwrap() as u64
                        + 64 * (sent.len() as u64 - 1);
                    for to in 0..n {
                        net.send(c, who, to, b.clone(), tag);
                    }
                }
                nodes[who].held.push((it, m));
            }
            3 => {
                // the chain moves: next block, jump ahead, reorganisation
                let h = &mut nodes[who].h;
                *h = match c.below(4) {
                    0 | 1 => h.saturating_add(1),
                    2 => {
                        c.count("fault.clock_jump");
                        h.saturating_add(c.draw(1000))
                    }
                    _ => {
                        c.count("fault.clock_jump");
                        h.saturating_sub(1 + c.draw(3))
                    }
                };
            }
            4 => {
                // crash and restart: memory is lost, the store survives
                let node = &mut nodes[who];
                c.count("fault.restart");
                node.held.clear();
                let disk = node.disk.clone();
                for (ty, k, b, m) in disk {
                    let it = de(ty, k, &b).or_else(|e| viol("restart-refused", format!("{ty:?} in {k:?} form refused: {e}: {}", describe(&m))))?;
                    node.held.push((it, m));
                }
            }
            5 => {
                if let Some((it, m)) = nodes[who].held.last_mut() {
                    let k = codec_for(c, it);
                    let b = ser(it, k)?;
                    let rec = (it.ty(), k, b, m.clone());
                    nodes[who].disk.push(rec);
                }
            }
            6 => {
                // the operator changes the limits
                nodes[who].p = params(c);
                c.count("fault.limits_changed");
            }
            7 => {
                let i = c.below(nodes[who].held.len().max(1));
                if let Some((it, _)) = nodes[who].held.get_mut(i) {
                    it.precompute();
                }
            }
            8 => {
                let i = c.below(nodes[who].held.len().max(1));
                if i < nodes[who].held.len() {
                    let (it, m) = nodes[who].held.swap_remove(i);
                    let it = if it.ty() == Ty::Tx { unwrapped(it) } else { wrapped(it) };
                    nodes[who].held.push((it, m));
                }
            }
            _ => {}
        }
        // everyone checks something
        let node = &nodes[who];
        if node.held.is_empty() {
            continue;
        }
        let i = if c.chance(1, 2) { node.held.len() - 1 } else { c.below(node.held.len()) };
        let (it, m) = &node.held[i];
        let path = *c.pick(&PATHS);
        let got = run_path(it, path, node.h, &node.p);
        c.nontrivial = true;
        c.count(match (&got, path) {
            (Ok(_), Path::Static) => "accepted without signatures",
            (Ok(_), Path::Signatures) => "accepted signatures",
            (Ok(_), Path::Full) => "accepted full check",
            (Ok(_), Path::IntoBasic) => "accepted into checked basic",
            (Ok(_), Path::Into) => "accepted into checked",
            (Err(_), _) => "refused",
        });
        c.note(mix(path as u64, match &got { Ok(_) => 0, Err(e) => hash_bytes(err_name(e).as_bytes()) }));
        c.log(|| format!("node {who} at height {} checks #{i} by {path:?}: {}", node.h, match &got { Ok(_) => "accepted".into(), Err(e) => format!("{e:?}") }));
        judge(m, path, node.h, &node.p, &got)?;
        // the pieces one by one
        if c.chance(1, 6) && m.kind != Kind::Mint {
            let txid: Bytes32 = id(m).into();
            let ws: Vec<Witness> = m.witnesses.iter().map(|w| w.clone().into()).collect();
            for (ix, x) in m.inputs.iter().enumerate().take(6) {
                let want = input_errors(m, ix, &node.p);
                let got = x.check_without_signature(ix, &m.outputs, &ws, &node.p);
                match &got {
                    Ok(()) => ensure!(want.is_empty(), "input-accepted", "input {ix} accepted though it breaks {want:?}: {}", describe(m)),
                    Err(e) => ensure!(want.contains(e), "input-refused", "input {ix} refused with {e:?}, broken are {want:?}: {}", describe(m)),
                }
                if signed && c.chance(1, 3) {
                    let mut all = want.clone();
                    all.extend(auth_errors(m, &txid).into_iter().filter(|e| format!("{e:?}").contains(&format!("index: {ix} "))));
                    match x.check(ix, &txid, &m.outputs, &ws, &node.p) {
                        Ok(()) => ensure!(all.is_empty(), "input-accepted", "input {ix} accepted though it breaks {all:?}: {}", describe(m)),
                        Err(e) => ensure!(all.contains(&e), "input-refused", "input {ix} refused with {e:?}, broken are {all:?}: {}", describe(m)),
                    }
                }
            }
            for (ix, o) in m.outputs.iter().enumerate().take(6) {
                let bad = matches!(o, Output::Contract { input_index, .. } if !matches!(m.inputs.get(*input_index as usize), Some(Input::Contract { .. })));
                match o.check(ix, &m.inputs) {
                    Ok(()) => ensure!(!bad, "output-accepted", "output {ix} accepted though it refers to no contract input: {}", describe(m)),
                    Err(e) => ensure!(bad && e == CheckError::OutputContractInputIndex { index: ix }, "output-refused", "output {ix} refused with {e:?}: {}", describe(m)),
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
fn signed_target(i: &Input) -> Option<(u8, B32)> {
    match i {
        Input::CoinSigned { owner, witness_index, .. } | Input::MessageSigned { recipient: owner, witness_index, .. } => {
            Some((*witness_index, **owner))
        }
        _ => None,
    }
}
/// the other valid form of a signature over the same message: (r, n - s), other parity
fn malleate(sig: &mut [u8]) {
    const N: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
        0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
    ];
    let v = sig[32] & 0x80;
    sig[32] &= 0x7f;
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let d = N[i] as i32 - sig[32 + i] as i32 - borrow;
        borrow = (d < 0) as i32;
        sig[32 + i] = d.rem_euclid(256) as u8;
    }
    sig[32] = (sig[32] & 0x7f) | (v ^ 0x80);
}
fn judge_auth(c: &mut Ctx, it: &Item, m: &M, what: &str) -> R<bool> {
    let txid = id(m);
    let want = auth_errors(m, &txid);
    let got = run_path(it, Path::Signatures, 0, &ConsensusParameters::DEFAULT);
    c.nontrivial = true;
    c.note(mix(hash_bytes(what.as_bytes()), match &got { Ok(_) => 0, Err(e) => hash_bytes(err_name(e).as_bytes()) }));
    match &got {
        Ok(_) => {
            c.count("authorised");
            ensure!(want.is_empty(), format!("unauthorised-accepted:{}", err_name(&want[0])), "after {what}: signatures accepted, but {want:?}: {}", describe(m))
        }
        Err(e) => {
            c.count("not authorised");
            ensure!(!want.is_empty(), "authorised-refused", "after {what}: every owner signed, but refused with {e:?}: {}", describe(m));
            ensure!(want.contains(e), "auth-misnamed", "after {what}: refused with {e:?}, wrong are {want:?}: {}", describe(m));
        }
    }
    // each input alone
    if c.chance(1, 4) {
        let ws: Vec<Witness> = m.witnesses.iter().map(|w| w.clone().into()).collect();
        let t: Bytes32 = txid.into();
        for (ix, x) in m.inputs.iter().enumerate().take(8) {
            let mine: Vec<&CheckError> = want
                .iter()
                .filter(|e| {
                    matches!(e, CheckError::InputWitnessIndexBounds { index } | CheckError::InputInvalidSignature { index } | CheckError::InputPredicateOwner { index } if *index == ix)
                })
                .collect();
            match x.check_signature(ix, &t, &ws) {
                Ok(()) => ensure!(mine.is_empty(), "unauthorised-input", "after {what}: input {ix} accepted, but {mine:?}: {}", describe(m)),
                Err(e) => ensure!(mine.contains(&&e), "input-auth-refused", "after {what}: input {ix} refused with {e:?}, wrong are {mine:?}: {}", describe(m)),
            }
        }
        let preds = want.iter().any(|e| matches!(e, CheckError::InputPredicateOwner { .. }));
        let ok = each_tx!(it, t => t.check_predicate_owners(), mint _t => true);
        ensure!(ok != preds, "predicate-owners", "after {what}: predicate owners reported {} valid: {}", if ok { "all" } else { "not all" }, describe(m));
    }
    Ok(want.is_empty())
}

fn c10_sign(c: &mut Ctx) -> R {
    let s = swarm(c);
    let p = ConsensusParameters::DEFAULT;
    let h = 5;
    let k = *c.pick(&[Kind::Script, Kind::Create, Kind::Script, Kind::Create, Kind::Mint]);
    let mut m = valid_tx(c, &s, &p, h, k);
    let mut fair = true;
    if c.chance(1, 6) {
        // a session that cannot succeed: two owners on one witness, or no such witness
        let ni = m.inputs.len();
        if ni > 0 {
            let i = c.below(ni);
            let w = c.below(m.witnesses.len() + 1) as u8;
            if let Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } = &mut m.inputs[i] {
                *witness_index = w;
                fair = false;
            }
        }
    }
    let txid = id(&m);
    c.note(shape(&m));
    c.log(|| format!("to be signed: {}", describe(&m)));
    let owners: Vec<usize> = {
        let mut v: Vec<usize> = m.inputs.iter().filter_map(|i| key_of(&signed_target(i)?.1)).collect();
        v.sort();
        v.dedup();
        v
    };
    // ---- signing session; node 0 coordinates, node 1+k is the wallet of key k
    let mut net = Net::swarm(c, false);
    let mut it = item_of(c, &m);
    if c.chance(1, 2) {
        it.precompute();
    }
    let mut disk: Option<(Ty, Codec, Vec<u8>, M)> = None;
    let mut rounds = 0;
    let want_wallets: Vec<usize> = if c.chance(1, 3) { (0..KEYS).chain(owners.iter().copied().filter(|k| *k >= KEYS)).collect() } else { owners.clone() };
    let mut done: BTreeSet<usize> = BTreeSet::new();
    loop {
        rounds += 1;
        let calm = rounds > 2;
        if calm {
            net.heal();
        }
        if rounds > 4 {
            // faults have stopped: the session must be over
            return viol("HARNESS", format!("signing session does not end: {done:?} of {want_wallets:?}"));
        }
        // ask everyone who has not answered, in seeded order, sometimes again those who have
        let mut ask: Vec<usize> = want_wallets.iter().copied().filter(|k| !done.contains(k) || (!calm && c.chance(1, 5))).collect();
        if ask.is_empty() {
            break;
        }
        while !ask.is_empty() {
            let i = c.below(ask.len());
            let k = ask.swap_remove(i);
            let codec = codec_for(c, &it);
            let b = ser(&mut it, codec)?;
            let tag = TYPES.iter().position(|t| *t == it.ty()).unwrap() as u64 + 16 * CODECS.iter().position(|x| *x == codec).unwrap() as u64;
            net.send(c, 0, 1 + k, b, tag);
        }
        while let Some(q) = net.next(c) {
            let (ty, codec) = (TYPES[(q.tag % 16) as usize], CODECS[(q.tag / 16) as usize]);
            let mut x = de(ty, codec, &q.bytes).or_else(|e| viol("relay-refused", format!("{ty:?} in {codec:?} form refused: {e}")))?;
            if q.to > 0 {
                let k = q.to - 1;
                let before = x.snap().unwrap();
                if c.chance(1, 3) {
                    x.precompute();
                }
                for _ in 0..1 + c.chance(1, 5) as usize {
                    each_tx!(&mut x, t => t.sign_inputs(&key(k).0), mint _t => ());
                }
                // the wallet's signature is where its inputs point, and nothing else moved
                let mut w = before;
                let sig = model_sign(k, &txid);
                let at: Vec<u8> = w.inputs.iter().filter_map(signed_target).filter(|t| t.1 == key(k).2).map(|t| t.0).collect();
                for a in at {
                    if let Some(x) = w.witnesses.get_mut(a as usize) {
                        *x = sig.clone();
                    }
                }
                let got = x.snap().unwrap();
                ensure!(strict(&got) == strict(&w), "signing-effect", "wallet {k} signed {} and the result is {}", describe(&w), describe(&got));
                let b = ser(&mut x, codec)?;
                net.send(c, q.to, 0, b, q.tag);
            } else {
                // merge the witnesses of the wallet's inputs
                let k = q.from - 1;
                let got = x.snap().unwrap();
                if !calm && c.chance(1, 4) {
                    // take the whole reply: late replies lose what others signed meanwhile
                    m.witnesses = got.witnesses.clone();
                    done.clear();
                    c.count("fault.stale_reply_taken");
                    for k in &owners {
                        let sig = model_sign(*k, &txid);
                        let all = m.inputs.iter().filter_map(signed_target).filter(|t| t.1 == key(*k).2).all(|t| m.witnesses.get(t.0 as usize).is_none_or(|w| *w == sig));
                        if all {
                            done.insert(*k);
                        }
                    }
                    if !owners.contains(&k) {
                        done.insert(k);
                    }
                } else {
                    let sig = model_sign(k, &txid);
                    for (i, w) in got.witnesses.iter().enumerate() {
                        if *w == sig {
                            if let Some(x) = m.witnesses.get_mut(i) {
                                *x = w.clone();
                            }
                        }
                    }
                    done.insert(k);
                }
                assign(&mut it, &m);
                if c.chance(1, 2) {
                    it.precompute();
                }
                if c.chance(1, 5) {
                    judge_auth(c, &it, &m, "a reply")?;
                }
            }
            if c.chance(1, 6) {
                let codec = codec_for(c, &it);
                let b = ser(&mut it, codec)?;
                disk = Some((it.ty(), codec, b, m.clone()));
            } else if !calm && c.chance(1, 12) {
                if let Some((ty, codec, b, old)) = &disk {
                    c.count("fault.restart");
                    it = de(*ty, *codec, b).or_else(|e| viol("restart-refused", format!("{ty:?} in {codec:?} form refused: {e}")))?;
                    m = old.clone();
                    done.clear();
                }
            }
        }
    }
    let all = want_wallets.iter().all(|k| done.contains(k));
    if all && !owners.is_empty() {
        c.count("session completed");
    }
    let ok = judge_auth(c, &it, &m, "the session")?;
    if all && fair {
        ensure!(ok, "HARNESS", "session completed but the model disagrees: {:?}", auth_errors(&m, &txid));
    }
    // the checked form agrees
    if c.chance(1, 3) {
        let got = run_path(&it, Path::Into, h, &p);
        judge(&m, Path::Into, h, &p, &got)?;
    }
    if k == Kind::Mint {
        return Ok(());
    }
    // ---- tampering, each attempt on the signed transaction
    if all && fair {
        sign_model(&mut m);
    }
    let n = c.range(1, 6);
    for _ in 0..n {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        let mut x = m.clone();
        let what = tamper(c, &s, &mut x, &txid);
        c.count("fault.tampering");
        let mut y = item_of(c, &x);
        if c.chance(1, 2) {
            y.precompute();
        }
        if c.chance(1, 3) {
            let k = codec_for(c, &y);
            let b = ser(&mut y, k)?;
            y = match de(y.ty(), k, &b) {
                Ok(y) => y,
                // (an empty predicate does not survive the wire as one)
                Err(e) => return viol("relay-refused", format!("tampered transaction in {k:?} form refused: {e}: {}", describe(&x))),
            };
        }
        c.log(|| format!("attack: {what}"));
        if y.snap().is_some_and(|z| strict(&z) == strict(&x)) {
            judge_auth(c, &y, &x, what)?;
        }
    }
    Ok(())
}
/// One attempt on a signed transaction.
fn tamper(c: &mut Ctx, s: &Swarm, x: &mut M, txid: &B32) -> &'static str {
    let (ni, nw) = (x.inputs.len(), x.witnesses.len());
    // witness slots that matter
    let used: Vec<usize> = x.inputs.iter().filter_map(signed_target).map(|t| t.0 as usize).filter(|w| *w < nw).collect();
    let w = if used.is_empty() { c.below(nw.max(1)) } else { *c.pick(&used) };
    let act = c.below(24);
    match act {
        22.. if ni > 0 => {
            // two inputs on one witness; only one of the owners signed
            let i = c.below(ni);
            let at = match signed_target(&x.inputs[i]) {
                Some((w, o)) if w as usize >= nw || key_of(&o).is_none() => None,
                t => t,
            };
            let j = c.below(ni);
            let k = c.below(KEYS);
            let fresh = c.chance(1, 2);
            if let (Some((w, o)), true) = (at, i != j) {
                if let Input::CoinSigned { witness_index, owner, .. } | Input::MessageSigned { witness_index, recipient: owner, .. } = &mut x.inputs[j] {
                    *witness_index = w;
                    if fresh {
                        *owner = key(k).2.into();
                    }
                }
                sign_model(x);
                let t = id(x);
                x.witnesses[w as usize] = model_sign(key_of(&o).unwrap_or(0), &t);
            }
            "one signature for two owners"
        }
        16.. if ni > 0 => impostor(c, x),
        0..=2 => {
            let (l, _) = field_edit(c, s, x);
            l
        }
        3 | 4 if w < nw && !x.witnesses[w].is_empty() => {
            let i = c.below(x.witnesses[w].len());
            x.witnesses[w][i] ^= 1 << c.below(8);
            "a bit flipped in a signature"
        }
        5 if w < nw => {
            match c.below(4) {
                0 => {
                    x.witnesses[w].pop();
                }
                1 => x.witnesses[w].push(0),
                2 => {
                    let n = c.below(x.witnesses[w].len() + 1);
                    x.witnesses[w].truncate(n)
                }
                _ => {
                    let mut b = vec![0; 1 + c.below(64)];
                    c.fill(&mut b);
                    x.witnesses[w].extend(b)
                }
            }
            "a signature cut or extended"
        }
        6 if nw > 1 => {
            let j = c.below(nw);
            x.witnesses.swap(w, j);
            "witnesses swapped"
        }
        7 if w < nw => {
            let j = c.below(nw);
            x.witnesses[w] = x.witnesses[j].clone();
            "a witness copied over another"
        }
        8 | 9 if w < nw => {
            // replay: an owner's signature over another transaction
            let mut o = x.clone();
            field_edit(c, s, &mut o);
            let k = owner_key(x, w).unwrap_or(0);
            x.witnesses[w] = model_sign(k, &id(&o));
            "a signature of another transaction"
        }
        10 if w < nw => {
            let k = c.below(KEYS);
            x.witnesses[w] = model_sign(k, txid);
            "a signature by some key"
        }
        11 if w < nw => {
            let k = owner_key(x, w).unwrap_or(0);
            let mut t = *txid;
            match c.below(4) {
                0 => t = [0; 32],
                1 => t = sha(&[txid]),
                2 => t.reverse(),
                _ => t = sha(&[&enc_bytes(x)]),
            }
            x.witnesses[w] = model_sign(k, &t);
            "a signature of another message"
        }
        12 if w < nw && x.witnesses[w].len() == 64 => {
            match c.below(4) {
                0 => x.witnesses[w] = vec![0; 64],
                1 => x.witnesses[w] = vec![0xff; 64],
                2 => x.witnesses[w][32] ^= 0x80,
                _ => malleate(&mut x.witnesses[w]),
            }
            "a signature in another form"
        }
        13 if ni > 0 => {
            let i = c.below(ni);
            let j = c.below(KEYS);
            match &mut x.inputs[i] {
                Input::CoinSigned { owner, .. } | Input::MessageSigned { recipient: owner, .. } => *owner = key(j).2.into(),
                Input::CoinPredicate { owner, predicate, .. } | Input::MessagePredicate { recipient: owner, predicate, .. } => {
                    match c.below(4) {
                        0 => *owner = key(j).2.into(),
                        1 => {
                            let mut q = predicate.clone();
                            let at = c.below(q.len().max(1));
                            if let Some(b) = q.get_mut(at) {
                                *b ^= 1 << c.below(8);
                            }
                            *owner = predicate_owner(&q).into();
                        }
                        2 => {
                            let mut b = **owner;
                            b[c.below(32)] ^= 1 << c.below(8);
                            *owner = b.into();
                        }
                        _ => *owner = sha(&[predicate]).into(),
                    }
                }
                _ => {}
            }
            "an owner replaced"
        }
        14 if ni > 0 => {
            let i = c.below(ni);
            if let Input::CoinPredicate { predicate, .. } | Input::MessagePredicate { predicate, .. } = &mut x.inputs[i] {
                match c.below(3) {
                    0 => predicate.push(0),
                    1 => predicate.push(1),
                    _ => {
                        let at = c.below(predicate.len().max(1));
                        if let Some(b) = predicate.get_mut(at) {
                            *b ^= 1 << c.below(8);
                        }
                    }
                }
            }
            "a predicate altered"
        }
        _ if ni > 0 => {
            let i = c.below(ni);
            let nw = nw as u8;
            let v = *c.pick(&[nw, nw.wrapping_sub(1), 255, 0, w as u8]);
            if let Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } = &mut x.inputs[i] {
                *witness_index = v;
            }
            if c.chance(1, 2) {
                // and signed again
                sign_model(x);
            }
            "a witness index altered"
        }
        _ => "nothing",
    }
}
/// Someone who is near the transaction but does not own the input signs for it; everyone else has signed properly.
fn impostor(c: &mut Ctx, x: &mut M) -> &'static str {
    let i = c.below(x.inputs.len());
    let j = c.below(KEYS);
    let a = key(j).2;
    let near = {
        let mut b = a;
        match c.below(6) {
            0 => b[31] ^= 1 << c.below(8),
            1 => b[0] ^= 1 << c.below(8),
            2 => b[c.range(1, 30)] ^= 1 << c.below(8),
            3 => b.reverse(),
            4 => b[16..].fill(0),
            _ => b[..16].fill(0),
        }
        b
    };
    let odd: B32 = match c.below(6) {
        0 | 1 => [0; 32],
        2 => [0xff; 32],
        3 => near,
        4 => sha(&[&a]),
        _ => {
            let mut b = [0; 32];
            b[31] = 1;
            b
        }
    };
    let rel = c.below(10);
    let mut what = "an impostor's signature";
    match (&mut x.inputs[i], rel) {
        (Input::CoinSigned { owner, .. } | Input::MessageSigned { recipient: owner, .. }, 0..=2) => {
            *owner = odd.into();
            what = "a signature for an address nobody has the key of";
        }
        (Input::MessageSigned { sender, message_id, .. }, 3..=6) => {
            *sender = a.into();
            if rel == 6 {
                *message_id = a.into();
            }
            what = "a signature by the sender of a message";
        }
        (Input::CoinSigned { asset_id, .. }, 3) => *asset_id = a.into(),
        (Input::CoinSigned { utxo_id, .. }, 4) => *utxo_id = UtxoId::new(a.into(), 0),
        (Input::CoinSigned { amount, .. } | Input::MessageSigned { amount, .. }, 5 | 7) => *amount = 0,
        (Input::CoinPredicate { owner, predicate, predicate_data, .. } | Input::MessagePredicate { recipient: owner, predicate, predicate_data, .. }, 0..=5) => {
            what = "a predicate of another owner";
            match rel {
                0 => *owner = a.into(),
                1 => *owner = odd.into(),
                2 => *owner = predicate_owner(predicate_data).into(),
                3 => {
                    let mut b = predicate.clone();
                    b.extend_from_slice(predicate_data);
                    *owner = predicate_owner(&b).into();
                }
                4 => {
                    let mut b = predicate_owner(predicate);
                    match c.below(3) {
                        0 => b[31] ^= 1,
                        1 => b[0] ^= 0x80,
                        _ => b[16..].fill(0),
                    }
                    *owner = b.into();
                }
                _ => {
                    let mut b = predicate.clone();
                    b.resize(b.len().next_multiple_of(8) + 8, 0);
                    *owner = predicate_owner(&b).into();
                }
            }
        }
        (Input::MessagePredicate { sender, recipient, predicate, .. }, 6 | 7) => {
            *sender = predicate_owner(predicate).into();
            *recipient = a.into();
            what = "a predicate of the sender of a message";
        }
        _ => {}
    }
    if c.chance(1, 3) {
        // the impostor is paid
        for o in x.outputs.iter_mut() {
            if let Output::Coin { to, .. } | Output::Change { to, .. } | Output::Variable { to, .. } = o {
                *to = a.into();
            }
        }
    }
    sign_model(x);
    let t = id(x);
    let sig = model_sign(j, &t);
    match signed_target(&x.inputs[i]) {
        Some((w, _)) => {
            if let Some(w) = x.witnesses.get_mut(w as usize) {
                *w = sig;
            }
        }
        // a signature where a predicate's owner would have one
        None => {
            if let Some(w) = x.witnesses.first_mut() {
                if c.chance(1, 2) {
                    *w = sig;
                }
            }
        }
    }
    what
}
fn owner_key(m: &M, w: usize) -> Option<usize> {
    let o = m.inputs.iter().filter_map(signed_target).find(|t| t.0 as usize == w)?.1;
    key_of(&o)
}

// ------------------------------------------------------------------ C11
type Supply = BTreeMap<AssetId, u128>;

fn c11_ledger(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut p = ConsensusParameters::DEFAULT;
    p.gas_price_factor = *c.pick(&[1u64, 1, 7, 1_000_000_000]);
    p.gas_per_byte = *c.pick(&[1u64, 0, 4]);
    // a treasury: many assets, many coins, long lists
    let wide = c.chance(1, 40);
    let assets: Vec<AssetId> = {
        let mut v: Vec<AssetId> = vec![AssetId::BASE];
        for i in [2usize, 1, 3, s.ids.len() - 1, s.ids.len() - 2] {
            if i < s.ids.len() && c.chance(1, 2) && !v.contains(&s.ids[i].into()) {
                v.push(s.ids[i].into());
            }
        }
        if wide {
            for _ in 0..c.below(60) {
                let mut b = [0u8; 32];
                c.fill(&mut b);
                v.push(b.into());
            }
        }
        v
    };
    // owners: the wallets' keys, two predicates, and the zero address nobody holds a key of
    let guards: [Vec<u8>; 2] = [vec![1; 4], nonempty_blob(c, &s)];
    let address = |o: usize| -> B32 {
        match o {
            o if o < KEYS => key(o).2,
            o if o < KEYS + 2 => predicate_owner(&guards[o - KEYS]),
            _ => [0; 32],
        }
    };
    let owner_of = |a: &B32| (0..KEYS + 3).find(|o| address(*o) == *a).unwrap_or(KEYS + 2);
    // genesis
    #[derive(Clone)]
    struct Coin {
        owner: usize,
        asset: AssetId,
        amount: u64,
        message: Option<(u64, Vec<u8>)>,
    }
    let mut coins: BTreeMap<(B32, u8), Coin> = BTreeMap::new();
    let huge = c.chance(1, 3);
    let ng = if wide { c.range(7, 120) } else { c.range(2, 7) };
    for g in 0..ng {
        let asset = *c.pick(&assets);
        let message = match asset == AssetId::BASE && c.chance(1, 3) {
            true => Some((word(c), if c.chance(1, 2) { vec![] } else { blob(c, &s) })),
            false => None,
        };
        let amount = if huge { word(c) } else { small(c) * *c.pick(&[1u64, 1000, 1 << 20]) };
        coins.insert(([g as u8 + 1; 32], g as u8), Coin { owner: c.below(KEYS + 3), asset, amount, message });
    }
    let total = |coins: &BTreeMap<(B32, u8), Coin>, burnt: &Supply| -> Supply {
        let mut t = burnt.clone();
        for v in coins.values() {
            *t.entry(v.asset).or_default() += v.amount as u128;
        }
        t
    };
    let mut burnt: Supply = BTreeMap::new();
    let supply = total(&coins, &burnt);
    let mut net = Net::swarm(c, false);
    let mut mempool: Vec<(Ty, Codec, Vec<u8>)> = vec![];
    // intent log of the node: a transaction that was checked and not yet settled
    let mut wal: Option<(Ty, Codec, Vec<u8>, Option<Meta>)> = None;
    let steps = c.range(3, 12);
    let mut serial = 0u32;
    for _ in 0..steps {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        // ---- a wallet spends some coins
        if c.chance(3, 4) && !coins.is_empty() {
            let mut m = M::empty(*c.pick(&[Kind::Script, Kind::Script, Kind::Create]));
            serial += 1;
            m.data = serial.to_be_bytes().to_vec();
            if m.kind == Kind::Create {
                m.data.clear();
                m.salt = [serial as u8; 32];
                m.witnesses.push(vec![]);
            }
            m.gas_limit = match c.below(4) {
                0 => c.draw(10),
                1 => p.max_gas_per_tx,
                _ => c.draw(1000),
            };
            m.gas_price = *c.pick(&[0u64, 0, 1, 1, 3, 1 << 20]);
            let n = if wide { c.range(1, 100) } else if c.chance(1, 12) { c.range(6, 20) } else { c.range(1, 5) };
            let keys: Vec<(B32, u8)> = coins.keys().copied().collect();
            let mut used = vec![];
            for _ in 0..n {
                let kx = *c.pick(&keys);
                let cheat_twice = used.contains(&kx);
                if cheat_twice && !c.chance(1, 6) {
                    continue;
                }
                used.push(kx);
                let v = coins[&kx].clone();
                let owner: Address = address(v.owner).into();
                let guard = (v.owner >= KEYS && v.owner < KEYS + 2).then(|| (guards[v.owner - KEYS].clone(), blob(c, &s)));
                let w = if guard.is_some() {
                    0
                } else if !m.witnesses.is_empty() && c.chance(1, 6) {
                    m.witnesses.len() as u8 - 1
                } else {
                    m.witnesses.push(vec![]);
                    m.witnesses.len() as u8 - 1
                };
                let mut mid = kx.0;
                mid[31] = kx.1;
                let (utxo_id, asset_id, amount) = (UtxoId::new(kx.0.into(), kx.1), v.asset, v.amount);
                m.inputs.push(match (v.message, guard) {
                    (Some((nonce, data)), None) => {
                        Input::MessageSigned { message_id: mid.into(), sender: [9; 32].into(), recipient: owner, amount, nonce, witness_index: w, data }
                    }
                    (Some((nonce, data)), Some((predicate, predicate_data))) => Input::MessagePredicate {
                        message_id: mid.into(),
                        sender: [9; 32].into(),
                        recipient: owner,
                        amount,
                        nonce,
                        data,
                        predicate,
                        predicate_data,
                    },
                    (None, None) => Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer: ptr(c), witness_index: w, maturity: word(c) },
                    (None, Some((predicate, predicate_data))) => {
                        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer: ptr(c), maturity: word(c), predicate, predicate_data }
                    }
                });
            }
            // a contract takes part: it brings no coins
            if m.kind == Kind::Script && c.chance(1, 6) {
                let ix = m.inputs.len() as u8;
                m.inputs.push(Input::Contract {
                    utxo_id: utxo(c, &s),
                    balance_root: [0; 32].into(),
                    state_root: [0; 32].into(),
                    tx_pointer: ptr(c),
                    contract_id: [7; 32].into(),
                });
                m.outputs.push(Output::Contract { input_index: ix, balance_root: [0; 32].into(), state_root: [0; 32].into() });
            }
            // outputs: from what is there, or beyond
            let mut left: Supply = BTreeMap::new();
            for i in &m.inputs {
                if let Some(a) = in_asset(i) {
                    *left.entry(a).or_default() += in_amount(i) as u128;
                }
            }
            let greedy = c.chance(1, 3);
            let spendable: Vec<AssetId> = if greedy && c.chance(1, 4) { assets.clone() } else { left.keys().copied().collect() };
            let reserve = match fee(&p, metered(&m) + 400, m.gas_limit, m.gas_price) {
                FeeV::Exact(f) | FeeV::Either(f) => f.total as u128,
                FeeV::Overflow => 0,
            };
            if let Some(v) = left.get_mut(&AssetId::BASE) {
                if !greedy {
                    *v = v.saturating_sub(reserve);
                }
            }
            if !spendable.is_empty() {
                for _ in 0..if wide { c.below(200) } else if c.chance(1, 12) { c.below(20) } else { c.below(6) } {
                    let a = *c.pick(&spendable);
                    let l = left.get(&a).copied().unwrap_or(0);
                    let cap = l.min(u64::MAX as u128) as u64;
                    let amount = match c.below(5) {
                        0 => cap,
                        1 if greedy => cap.saturating_add(1 + c.draw(3)),
                        2 if greedy => word(c),
                        3 => 0,
                        _ => {
                            if cap == u64::MAX {
                                c.draw(0)
                            } else {
                                c.draw(cap + 1)
                            }
                        }
                    };
                    left.insert(a, l.saturating_sub(amount as u128));
                    m.outputs.push(Output::Coin { to: address(c.below(KEYS + 3)).into(), amount, asset_id: a });
                }
                for a in &spendable {
                    if c.chance(1, 2) && (m.kind == Kind::Script || *a == AssetId::BASE) {
                        let at = c.below(m.outputs.len() + 1);
                        m.outputs.insert(at, Output::Change { to: address(c.below(KEYS + 3)).into(), amount: 0, asset_id: *a });
                    }
                }
                if m.kind == Kind::Script && c.chance(1, 4) {
                    m.outputs.push(Output::Variable { to: [0; 32].into(), amount: 0, asset_id: AssetId::BASE });
                    m.outputs.push(Output::Message { recipient: [3; 32].into(), amount: word(c) });
                }
            }
            // set the fee exactly at, or next to, what is left
            if c.chance(1, 4) && !m.inputs.is_empty() {
                if let (FeeV::Exact(f), Some(i)) = (
                    fee(&p, metered(&m), m.gas_limit, m.gas_price),
                    m.outputs.iter_mut().find(|o| matches!(o, Output::Coin { asset_id, .. } if *asset_id == AssetId::BASE)),
                ) {
                    let have: u128 = m.inputs.iter().filter(|i| in_asset(i) == Some(AssetId::BASE)).map(|i| in_amount(i) as u128).sum();
                    let d = c.draw(3) as u128;
                    if let Output::Coin { amount, .. } = i {
                        *amount = (have + d).saturating_sub(f.total as u128 + 1).min(u64::MAX as u128) as u64;
                    }
                }
            }
            if c.chance(1, 2) {
                sign_model(&mut m);
            }
            c.log(|| format!("wallet submits {}", describe(&m)));
            let mut it = item_of(c, &m);
            let k = codec_for(c, &it);
            let b = ser(&mut it, k)?;
            let tag = TYPES.iter().position(|t| *t == it.ty()).unwrap() as u64 + 16 * CODECS.iter().position(|x| *x == k).unwrap() as u64;
            net.send(c, 1, 0, b, tag);
        }
        while net.q.iter().any(|q| q.at <= c.ticks) {
            let Some(q) = net.next(c) else { break };
            mempool.push((TYPES[(q.tag % 16) as usize], CODECS[(q.tag / 16) as usize], q.bytes));
        }
        // ---- the node makes a block of what it holds, in seeded order
        let mut block = 0;
        while wal.is_some() || (!mempool.is_empty() && block < 4) {
            block += 1;
            let (ty, k, b, redo) = match wal.take() {
                Some((ty, k, b, meta)) => (ty, k, b, Some(meta)),
                None => {
                    let i = c.below(mempool.len());
                    let (ty, k, b) = mempool.swap_remove(i);
                    (ty, k, b, None)
                }
            };
            let it = de(ty, k, &b).or_else(|e| viol("relay-refused", format!("{ty:?} in {k:?} form refused: {e}")))?;
            let m = it.snap().unwrap();
            // the ledger's own admission: inputs exist and are as claimed
            let mut known = true;
            for i in &m.inputs {
                let kx = match i {
                    Input::CoinSigned { utxo_id, .. } | Input::CoinPredicate { utxo_id, .. } => (**utxo_id.tx_id(), utxo_id.output_index()),
                    Input::MessageSigned { message_id, .. } | Input::MessagePredicate { message_id, .. } => {
                        let mut x = **message_id;
                        let ix = x[31];
                        x[31] = x[30];
                        (x, ix)
                    }
                    _ => continue,
                };
                known &= coins.get(&kx).is_some_and(|v| v.amount == in_amount(i) && Some(v.asset) == in_asset(i));
            }
            if !known {
                c.count("already spent");
                continue;
            }
            let full = c.chance(1, 6);
            let path = if full { Path::Into } else { Path::IntoBasic };
            let got = run_path(&it, path, 5, &p);
            c.nontrivial = true;
            c.note(mix(shape(&m), match &got { Ok(_) => 1, Err(e) => hash_bytes(err_name(e).as_bytes()) }));
            let passed = match got {
                Ok(Some(x)) => x,
                Err(e) => {
                    c.count("refused");
                    ensure!(redo.is_none() || full, "redo-verdict", "a transaction that was accepted is refused with {e:?} after a crash: {}", describe(&m));
                    judge(&m, path, 5, &p, &Err(e))?;
                    continue;
                }
                Ok(None) => continue,
            };
            c.count("settled or recovered");
            let meta = passed.meta.clone();
            if let Some(old) = redo {
                ensure!(old == meta, "redo-metadata", "after a crash the free balances are {meta:?}, before they were {old:?}");
            } else if c.chance(1, 8) {
                // crash between check and settlement: the intent log survives
                c.count("fault.crash_before_settlement");
                wal = Some((ty, k, b, meta));
                continue;
            }
            let Some(meta) = meta else { continue };
            // ---- settlement: spent coins go, outputs, change and the fee come
            let mut spent: Supply = BTreeMap::new();
            for i in &m.inputs {
                let kx = match i {
                    Input::CoinSigned { utxo_id, .. } | Input::CoinPredicate { utxo_id, .. } => (**utxo_id.tx_id(), utxo_id.output_index()),
                    Input::MessageSigned { message_id, .. } | Input::MessagePredicate { message_id, .. } => {
                        let mut x = **message_id;
                        let ix = x[31];
                        x[31] = x[30];
                        (x, ix)
                    }
                    _ => continue,
                };
                // a coin named twice is spent once
                if let Some(v) = coins.remove(&kx) {
                    *spent.entry(v.asset).or_default() += v.amount as u128;
                }
            }
            let mut made: Supply = BTreeMap::new();
            let txid = id(&m);
            let mut fresh: Vec<Coin> = vec![];
            for o in &m.outputs {
                if let Output::Coin { to, amount, asset_id } = o {
                    *made.entry(*asset_id).or_default() += *amount as u128;
                    let owner = owner_of(to);
                    fresh.push(Coin { owner, asset: *asset_id, amount: *amount, message: None });
                }
            }
            for (a, v) in &meta.balances {
                *made.entry(*a).or_default() += *v as u128;
                let to = m.outputs.iter().find_map(|o| match o {
                    Output::Change { to, asset_id, .. } if asset_id == a => Some(*to),
                    _ => None,
                });
                match to {
                    Some(to) => {
                        let owner = owner_of(&to);
                        fresh.push(Coin { owner, asset: *a, amount: *v, message: None });
                    }
                    None => *burnt.entry(*a).or_default() += *v as u128,
                }
            }
            let paid = meta.fee.total() as u128;
            *made.entry(AssetId::BASE).or_default() += paid;
            *burnt.entry(AssetId::BASE).or_default() += paid;
            for a in made.keys().chain(spent.keys()) {
                let (x, y) = (made.get(a).copied().unwrap_or(0), spent.get(a).copied().unwrap_or(0));
                ensure!(x <= y, "inflation", "asset {a:x}: {y} was spent and {x} came out (outputs + free balance + fee): {}", describe(&m));
                ensure!(x == y, "value-lost", "asset {a:x}: {y} was spent and only {x} came out (outputs + free balance + fee): {}", describe(&m));
            }
            for (i, v) in fresh.into_iter().enumerate() {
                coins.insert((txid, i as u8), v);
            }
            c.count("settled");
            c.log(|| format!("settled {}", describe(&m)));
            judge(&m, path, 5, &p, &Ok(Some(passed)))?;
        }
        let now = total(&coins, &burnt);
        for (a, v) in &now {
            let was = supply.get(a).copied().unwrap_or(0);
            ensure!(*v <= was, "supply-grew", "asset {a:x}: supply is {v}, at genesis it was {was}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
fn c12_checked(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut p = if c.chance(1, 2) { ConsensusParameters::DEFAULT } else { params(c) };
    let mut h = c.draw(50);
    struct Slot {
        ck: Ck,
        m: M,
        meta: Option<Meta>,
        bits: u32,
    }
    let mut slots: Vec<Slot> = vec![];
    let mut raw: Vec<(Item, M)> = vec![];
    let steps = c.range(4, 16);
    for _ in 0..steps {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        let act = c.below(14);
        c.note(act as u64 + 7);
        let pick = |c: &mut Ctx, n: usize| c.below(n.max(1));
        match act {
            0..=2 => {
                // a fresh transaction, mostly one that passes
                let k = kind(c);
                let mut m = valid_tx(c, &s, &p, h, k);
                if c.chance(1, 4) {
                    rule_mutation(c, &s, &mut m, &p, h);
                }
                match c.below(6) {
                    0 => {}
                    4 | 5 => {
                        sign_model(&mut m);
                        let t = id(&m);
                        if m.kind != Kind::Mint {
                            let what = tamper(c, &s, &mut m, &t);
                            c.count("fault.tampering");
                            c.log(|| format!("attack: {what}"));
                        }
                    }
                    1 => {
                        sign_model(&mut m);
                        if let Some(w) = m.witnesses.last_mut() {
                            if let Some(b) = w.first_mut() {
                                *b ^= 1
                            }
                        }
                    }
                    _ => sign_model(&mut m),
                }
                let mut it = item_of(c, &m);
                if c.chance(1, 3) {
                    it.precompute();
                }
                c.log(|| format!("submitted {}", describe(&m)));
                c.note(shape(&m));
                raw.push((it, m));
            }
            3..=5 if !raw.is_empty() => {
                let i = pick(c, raw.len());
                let full = c.chance(1, 2);
                let (it, m) = raw.swap_remove(i);
                let path = if full { Path::Into } else { Path::IntoBasic };
                let e = expect(&m, path, h, &p);
                let r = into_ck(it, full, h, &p);
                c.nontrivial = true;
                c.note(r.is_ok() as u64);
                c.log(|| format!("checked by {path:?} at {h}: {}", match &r { Ok(_) => "accepted".to_string(), Err(e) => format!("{e:?}") }));
                let got = match &r {
                    Ok(x) => Ok(Some(x.passed())),
                    Err(e) => Err(e.clone()),
                };
                judge(&m, path, h, &p, &got)?;
                if let Ok(ck) = r {
                    slots.push(Slot { ck, m, meta: e.meta, bits: e.bits });
                }
            }
            6 | 7 if !slots.is_empty() => {
                // check further; a failed check yields nothing
                let i = pick(c, slots.len());
                let x = slots.swap_remove(i);
                let keep = x.ck.clone();
                let errs = if x.bits & 2 != 0 || x.m.kind == Kind::Mint { vec![] } else { auth_errors(&x.m, &id(&x.m)) };
                match x.ck.more() {
                    Ok(ck) => {
                        ensure!(errs.is_empty(), "checked-unauthorised", "signature check passed, but {errs:?}: {}", describe(&x.m));
                        c.count("checked further");
                        slots.push(Slot { ck, m: x.m, meta: x.meta, bits: x.bits | 2 });
                    }
                    Err(e) => {
                        c.count("further check failed");
                        ensure!(errs.contains(&e), "checked-refused", "signature check of a checked transaction (record {:#b}) fails with {e:?}, wrong are {errs:?}: {}", x.bits, describe(&x.m));
                        slots.push(Slot { ck: keep, m: x.m, meta: x.meta, bits: x.bits });
                    }
                }
            }
            8 | 9 if !slots.is_empty() => {
                let i = pick(c, slots.len());
                let to = c.below(3);
                let x = slots.swap_remove(i);
                slots.push(Slot { ck: x.ck.convert(to), ..x });
            }
            10 if !slots.is_empty() => {
                let i = pick(c, slots.len());
                let x = &slots[i];
                let y = Slot { ck: x.ck.clone(), m: x.m.clone(), meta: x.meta.clone(), bits: x.bits };
                ensure!(y.ck == x.ck, "checked-clone", "a copy of a checked transaction is not equal to it: {}", describe(&x.m));
                slots.push(y);
            }
            11 if !slots.is_empty() => {
                // out of the wrapper, stored, reloaded after a crash
                let i = pick(c, slots.len());
                let x = slots.swap_remove(i);
                let (mut it, meta) = x.ck.unpack();
                let got = it.snap().unwrap();
                ensure!(strict(&got) == strict(&x.m), "checked-content", "unpacked transaction is not the one submitted: {} became {}", describe(&x.m), describe(&got));
                ensure!(meta == x.meta || x.m.kind == Kind::Mint, "checked-metadata", "unpacked metadata {meta:?}, checked with {:?}", x.meta);
                if c.chance(1, 2) {
                    let k = codec_for(c, &it);
                    let b = ser(&mut it, k)?;
                    c.count("fault.restart");
                    it = de(it.ty(), k, &b).or_else(|e| viol("restart-refused", format!("{k:?} form refused: {e}")))?;
                }
                let mut m = x.m;
                if c.chance(1, 3) {
                    // edited outside the wrapper: earlier checks say nothing any more
                    field_edit(c, &s, &mut m);
                    assign(&mut it, &m);
                    if it.snap().is_some_and(|z| strict(&z) != strict(&m)) {
                        continue;
                    }
                }
                raw.push((it, m));
            }
            12 => {
                h = match c.below(3) {
                    0 => h + 1,
                    1 => h.saturating_sub(1),
                    _ => c.draw(50),
                };
                c.count("fault.clock_jump");
            }
            13 if c.chance(1, 2) => {
                p = params(c);
                c.count("fault.limits_changed");
            }
            13 if c.chance(1, 3) => {
                // what the default of the wrapper holds has passed every check of a fresh chain
                let (ck, m) = match c.below(3) {
                    0 => (Ck::Script(Default::default()), snap_script(&Script::default())),
                    1 => (Ck::Tx(Default::default()), snap(&Transaction::default())),
                    _ => (Ck::Mint(Default::default()), snap_mint(&Mint::default())),
                };
                let e = expect(&m, Path::Into, 0, &ConsensusParameters::DEFAULT);
                slots.push(Slot { ck, m, meta: e.meta, bits: e.bits });
            }
            _ => {}
        }
        if slots.len() > 8 {
            slots.remove(0);
        }
        for x in &slots {
            compare_passed(&x.m, &x.ck.passed(), &x.meta, x.bits, "held")?;
        }
        if let Some(x) = slots.last() {
            ensure!(x.ck.views_agree(), "checked-views", "the views of a checked transaction show different transactions: {}", describe(&x.m));
        }
        // derived answers of the checked transaction
        if let (Some(x), true) = (slots.last(), c.chance(1, 4)) {
            let it = x.ck.clone().unpack().0;
            let (gi, ga) = answers(&it);
            let (wi, wa) = model_answers(&x.m);
            ensure!(gi == wi && ga == wa, "checked-derived", "derived data of the checked transaction disagree with its content: {}", describe(&x.m));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
fn fmin(f: &TransactionFee) -> u64 {
    TransactionFee::min(f)
}
fn fee_parts(f: &TransactionFee) -> Fee {
    Fee { bytes: fmin(f), total: f.total(), min_gas: f.min_gas(), max_gas: f.max_gas() }
}
fn c13_fees(c: &mut Ctx) -> R {
    let s = swarm(c);
    let mut p = params(c);
    let mut acc: Vec<u64> = (0..3).map(|_| word(c)).collect();
    let mut pot: u128 = 0;
    let start: u128 = acc.iter().map(|x| *x as u128).sum();
    // durable record of a charge whose refund is due
    struct Due {
        who: usize,
        fee: Vec<u8>,
        json: bool,
        price: u64,
        used: u64,
        p: ConsensusParameters,
    }
    let mut due: Vec<Due> = vec![];
    let steps = c.range(2, 12);
    for _ in 0..steps {
        if c.exhausted() {
            break;
        }
        c.mark();
        c.tick(1);
        match c.below(8) {
            0 => {
                p = params(c);
                c.count("fault.limits_changed");
            }
            1..=5 => {
                // ---- price a transaction, or bare numbers
                let (got, want, price, what) = if c.chance(1, 2) {
                    let k = *c.pick(&[Kind::Script, Kind::Create]);
                    let mut m = any_tx_kind(c, &s, k);
                    if c.chance(2, 3) {
                        m.gas_limit = small(c);
                        m.gas_price = small(c);
                    }
                    let mut it = unwrapped(item_of(c, &m));
                    if c.chance(1, 2) {
                        it.precompute();
                        if c.chance(1, 3) {
                            // edited afterwards: the price is of what is there
                            field_edit(c, &s, &mut m);
                            assign(&mut it, &m);
                            c.count("edited after precomputation");
                        }
                    }
                    if c.chance(1, 4) {
                        let k = codec_for(c, &it);
                        let b = ser(&mut it, k)?;
                        it = de(it.ty(), k, &b).or_else(|e| viol("restart-refused", format!("{k:?} form refused: {e}")))?;
                        c.count("fault.restart");
                    }
                    macro_rules! q {
                        ($t:ident) => {{
                            ensure!($t.price() == m.gas_price && $t.limit() == m.gas_limit, "charge-terms", "price {} and limit {} reported: {}", $t.price(), $t.limit(), describe(&m));
                            ensure!($t.metered_bytes_size() as u64 == metered(&m), "metered-size", "metered size {} where the encoding without witnesses has {}: {}", $t.metered_bytes_size(), metered(&m), describe(&m));
                            TransactionFee::checked_from_tx(&p, $t)
                        }};
                    }
                    let got = match &it {
                        Item::Script(t) => q!(t),
                        Item::Create(t) => q!(t),
                        _ => None,
                    };
                    c.note(shape(&m));
                    (got, fee(&p, metered(&m), m.gas_limit, m.gas_price), m.gas_price, describe(&m))
                } else {
                    let (b, l, g) = if c.chance(1, 2) { (small(c), small(c), small(c)) } else { (word(c), word(c), word(c)) };
                    (TransactionFee::checked_from_values(&p, b, l, g), fee(&p, b, l, g), g, format!("{b} bytes, limit {l}, price {g}"))
                };
                c.nontrivial = true;
                let what = format!("{what}; {} per byte, factor {}", p.gas_per_byte, p.gas_price_factor);
                c.log(|| format!("priced {got:?}: {what}"));
                let f = match (got, want) {
                    (Some(f), FeeV::Exact(w) | FeeV::Either(w)) => {
                        ensure!(fee_parts(&f) == w, "fee-value", "fee {f:?}, exact is {w:?}: {what}");
                        f
                    }
                    (None, FeeV::Exact(w)) => return viol("fee-refused", format!("no fee, exact is {w:?}: {what}")),
                    (Some(f), FeeV::Overflow) => return viol("fee-wrapped", format!("fee {f:?} though it does not fit: {what}")),
                    (None, _) => {
                        c.count("fee does not fit");
                        continue;
                    }
                };
                c.count("priced");
                c.note(mix(64 - f.total().leading_zeros() as u64, 64 - fmin(&f).leading_zeros() as u64));
                ensure!(fmin(&f) <= f.total(), "fee-order", "minimum {} above total {}: {what}", fmin(&f), f.total());
                ensure!(f.into_inner() == (fmin(&f), f.total()) && u64::from(f) == f.total(), "fee-views", "views of the fee disagree: {f:?}");
                ensure!(TransactionFee::new(fmin(&f), f.total(), f.min_gas(), f.max_gas()) == f, "fee-views", "fee rebuilt from its parts differs: {f:?}");
                // ---- charge
                let who = c.below(acc.len());
                let bal = match c.below(6) {
                    0 => f.total(),
                    1 => f.total().saturating_sub(1),
                    2 => f.total().saturating_add(1),
                    _ => acc[who],
                };
                let d = f.checked_deduct_total(bal);
                ensure!(d == bal.checked_sub(f.total()), "deduction", "deducting {} from {bal} gives {d:?}", f.total());
                if let Some(left) = f.checked_deduct_total(acc[who]) {
                    let paid = acc[who] as u128 - left as u128;
                    ensure!(paid == f.total() as u128, "deduction", "charge of {} took {paid}", f.total());
                    acc[who] = left;
                    pot += paid;
                    let used = match c.below(4) {
                        0 => f.max_gas(),
                        1 => f.min_gas(),
                        2 => 0,
                        _ => {
                            if f.max_gas() == u64::MAX {
                                c.draw(0)
                            } else {
                                c.draw(f.max_gas() + 1)
                            }
                        }
                    };
                    let json = c.chance(1, 2);
                    let rec = if json { serde_json::to_vec(&f).ok() } else { bincode::serialize(&f).ok() };
                    let Some(rec) = rec else { return viol("serialise", format!("fee {f:?} refused")) };
                    due.push(Due { who, fee: rec, json, price, used, p });
                    c.count("charged");
                }
            }
            _ => {
                if due.is_empty() {
                    continue;
                }
                let i = c.below(due.len());
                let x = due.swap_remove(i);
                if c.chance(1, 4) {
                    // torn record: refused, the mirror copy is used
                    c.count("fault.torn_write");
                    let cut = c.below(x.fee.len());
                    let bad = if x.json {
                        serde_json::from_slice::<TransactionFee>(&x.fee[..cut]).is_ok()
                    } else {
                        bincode::deserialize::<TransactionFee>(&x.fee[..cut]).is_ok()
                    };
                    ensure!(!bad, "torn-accepted", "a fee record cut at {cut} of {} bytes is accepted", x.fee.len());
                }
                let f: Result<TransactionFee, String> = if x.json {
                    serde_json::from_slice(&x.fee).map_err(|e| e.to_string())
                } else {
                    bincode::deserialize(&x.fee).map_err(|e| e.to_string())
                };
                let f = f.or_else(|e| viol("restart-refused", format!("fee record refused: {e}")))?;
                let left = f.max_gas() - x.used.min(f.max_gas());
                let want = left as u128 * x.price as u128 / x.p.gas_price_factor as u128;
                let tries = 1 + c.below(2);
                let mut refund = None;
                for t in 0..tries {
                    if t > 0 {
                        // the first attempt crashed before it was recorded
                        c.count("fault.crash_before_settlement");
                    }
                    refund = TransactionFee::gas_refund_value(&x.p, left, x.price);
                }
                c.log(|| format!("refund of {left} gas at {}: {refund:?}", x.price));
                match refund {
                    Some(r) => {
                        ensure!(r as u128 == want, "refund-value", "refund {r} for {left} gas at {} over {}, exact is {want}", x.price, x.p.gas_price_factor);
                        ensure!(r <= f.total(), "refund-exceeds-charge", "refund {r} above the charge {f:?}");
                        let kept = f.total() as u128 - r as u128;
                        let used = (f.max_gas() - left) as u128 * x.price as u128;
                        let fac = x.p.gas_price_factor as u128;
                        ensure!(kept * fac >= used && (kept * fac < used + 2 * fac), "settlement-rounding", "kept {kept} for {} gas at {} over {fac}", f.max_gas() - left, x.price);
                        pot -= r as u128;
                        acc[x.who] = match acc[x.who].checked_add(r) {
                            Some(v) => v,
                            None => return viol("HARNESS", "account overflow"),
                        };
                        c.count("refunded");
                        c.note(64 - r.leading_zeros() as u64);
                    }
                    None => ensure!(want > u64::MAX as u128, "refund-refused", "no refund for {left} gas at {} over {}, exact is {want}", x.price, x.p.gas_price_factor),
                }
                // and numbers that no charge produced
                let (g, pr) = (word(c), word(c));
                let want = g as u128 * pr as u128 / p.gas_price_factor as u128;
                let got = TransactionFee::gas_refund_value(&p, g, pr);
                ensure!(got == u64::try_from(want).ok(), "refund-value", "refund {got:?} for {g} gas at {pr} over {}, exact is {want}", p.gas_price_factor);
            }
        }
        let now: u128 = acc.iter().map(|x| *x as u128).sum::<u128>() + pot;
        ensure!(now == start, "settlement-conservation", "total value {now}, at the start {start}");
    }
    Ok(())
}
