//! Generated transactions, receipts, parameters. Every choice goes through the Ctx.
use crate::core::Ctx;
use crate::model::*;
use fuel_tx::*;

/// Run-wide shape of the generated values ("swarm" configuration).
#[derive(Clone)]
pub struct Swarm {
    pub max_items: usize,
    pub long: bool,
    /// lists of tens to hundreds of elements are common
    pub vast: bool,
    pub pool: bool,
    pub in_kinds: Vec<usize>,
    pub out_kinds: Vec<usize>,
    pub blob: usize,
    /// ids are drawn from this pool
    pub ids: Vec<B32>,
}

pub fn swarm(c: &mut Ctx) -> Swarm {
    let max_items = *c.pick(&[2usize, 0, 1, 3, 3, 5, 8, 20]);
    let long = c.chance(1, 40);
    let vast = c.chance(1, 60);
    let pool = c.chance(1, 3);
    let mut ids = vec![[0u8; 32], [0xff; 32]];
    let n = c.range(1, 4);
    for _ in 0..n {
        let mut b = [0u8; 32];
        c.fill(&mut b);
        ids.push(b);
    }
    let mut near = ids[2];
    near[31] ^= 1;
    ids.push(near);
    let mut near = ids[2];
    near[0] ^= 0x80;
    ids.push(near);
    let sub = |c: &mut Ctx, n: usize| -> Vec<usize> {
        if c.chance(1, 2) {
            let m = c.below(1 << n);
            let v: Vec<usize> = (0..n).filter(|i| m & (1 << i) != 0).collect();
            if !v.is_empty() {
                return v;
            }
        }
        (0..n).collect()
    };
    let in_kinds = sub(c, 5);
    let out_kinds = sub(c, 6);
    let blob = c.below(4);
    Swarm { max_items, long, vast, pool, in_kinds, out_kinds, blob, ids }
}

pub fn id32(c: &mut Ctx, s: &Swarm) -> B32 {
    if s.pool || c.chance(1, 4) {
        *c.pick(&s.ids)
    } else {
        let mut b = [0u8; 32];
        c.fill(&mut b);
        b
    }
}
/// asset ids are always drawn from few values
pub fn asset(c: &mut Ctx, s: &Swarm) -> AssetId {
    let n = s.ids.len();
    let i = *c.pick(&[0usize, 0, 2 % n, 1, n - 1, n - 2]);
    s.ids[i].into()
}
pub fn word(c: &mut Ctx) -> u64 {
    let w = match c.below(10) {
        9 if !c.words.is_empty() => {
            let i = c.below(c.words.len());
            return c.words[i];
        }
        0 => c.draw(16),
        1 => c.draw(256),
        2 => {
            let k = c.draw(64) as u32;
            let d = c.draw(3);
            (1u64 << k).wrapping_add(d).wrapping_sub(1)
        }
        3 => u64::MAX - c.draw(4),
        4 | 5 => {
            let d = c.draw(3);
            c.dict_word().unwrap_or(7).wrapping_add(d).wrapping_sub(1)
        }
        6 => c.draw(1 << 32),
        7 => u64::MAX / 2 - 2 + c.draw(5),
        _ => c.draw(0),
    };
    c.words.push_back(w);
    if c.words.len() > 6 {
        c.words.pop_front();
    }
    w
}
pub fn small(c: &mut Ctx) -> u64 {
    match c.below(4) {
        0 => c.draw(4),
        1 => c.draw(100),
        2 => c.draw(1_000_000),
        _ => c.dict_word().unwrap_or(3) & 0xffff_ffff,
    }
}
pub fn blob_len(c: &mut Ctx, s: &Swarm) -> usize {
    if s.long && c.chance(1, 3) {
        return match c.below(6) {
            5 => {
                // around a literal of the source
                let d = c.dict_word().unwrap_or(2048);
                let e = c.below(3);
                if d <= 70000 {
                    (d as usize + e).saturating_sub(1)
                } else {
                    2048 + e
                }
            }
            0 => 65536 - 8 + c.below(17),
            1 => 16384 - 8 + c.below(17),
            2 => 1 << c.below(17),
            3 => c.below(70000),
            _ => 4096 - 9 + c.below(20),
        };
    }
    match c.below(7) {
        0 => 0,
        1 => c.below(9),
        2 => c.below(34),
        3 => (c.below(8) + 1) * 8 - 1 + c.below(3),
        4 => {
            let d = c.dict_word().unwrap_or(5);
            if d <= 700 {
                (d as usize + c.below(3)).saturating_sub(1)
            } else {
                c.below(20)
            }
        }
        5 => c.below(300),
        _ => [4, 64, 1, 32][s.blob & 3] * (1 + c.below(3)),
    }
}
pub fn blob(c: &mut Ctx, s: &Swarm) -> Vec<u8> {
    let b = match c.below(12) {
        11 if !c.blobs.is_empty() => {
            // one of the last ones again, or one that is nearly the same
            let i = c.below(c.blobs.len());
            let mut b = c.blobs[i].clone();
            match c.below(6) {
                3 => b.push(0),
                4 => {
                    b.pop();
                }
                5 if !b.is_empty() => {
                    let k = c.below(b.len());
                    b[k] ^= 1 << c.below(8);
                }
                _ => {}
            }
            return b;
        }
        10 => {
            // an identifier as payload
            id32(c, s).to_vec()
        }
        _ => fresh_blob(c, s),
    };
    c.blobs.push_back(b.clone());
    if c.blobs.len() > 4 {
        c.blobs.pop_front();
    }
    b
}
fn fresh_blob(c: &mut Ctx, s: &Swarm) -> Vec<u8> {
    let n = blob_len(c, s);
    let mut b = vec![0u8; n];
    match c.below(8) {
        0 => b.iter_mut().for_each(|x| *x = 0xff),
        1 => {}
        2 => {
            // looks like an encoding
            c.fill(&mut b);
            for ch in b.chunks_mut(8) {
                if ch.len() == 8 {
                    ch[..7].iter_mut().for_each(|x| *x = 0);
                }
            }
        }
        _ => c.fill(&mut b),
    }
    if n > 0 && c.chance(1, 4) {
        b[n - 1] = 0;
    }
    if n > 0 && c.chance(1, 12) {
        // a literal of the source at the start or end
        let w = c.dict_word().unwrap_or(1).to_be_bytes();
        let len = *c.pick(&[1usize, 2, 4, 8]);
        let zeros = w.iter().take_while(|x| **x == 0).count().min(7);
        let w = if c.chance(1, 2) { &w[8 - len..] } else { &w[zeros..] };
        let k = w.len().min(n);
        if c.chance(2, 3) {
            b[..k].copy_from_slice(&w[..k]);
        } else {
            b[n - k..].copy_from_slice(&w[..k]);
        }
    }
    b
}
pub fn nonempty_blob(c: &mut Ctx, s: &Swarm) -> Vec<u8> {
    let mut b = blob(c, s);
    if b.is_empty() {
        b.push(c.draw(256) as u8);
    }
    b
}
pub fn ptr(c: &mut Ctx) -> TxPointer {
    let h = match c.below(4) {
        0 => c.draw(5) as u32,
        1 => u32::MAX - c.draw(2) as u32,
        2 => c.dict_word().unwrap_or(9) as u32,
        _ if c.chance(1, 4) => word(c) as u32,
        _ => c.draw(1 << 32) as u32,
    };
    let i = match c.below(3) {
        0 => c.draw(4) as u16,
        1 => u16::MAX - c.draw(2) as u16,
        _ => c.draw(65536) as u16,
    };
    TxPointer::new(h, i)
}
pub fn byte(c: &mut Ctx) -> u8 {
    match c.below(4) {
        0 => c.draw(4) as u8,
        1 => 255 - c.draw(2) as u8,
        2 => c.dict_word().unwrap_or(1) as u8,
        _ => c.draw(256) as u8,
    }
}
pub fn utxo(c: &mut Ctx, s: &Swarm) -> UtxoId {
    UtxoId::new(id32(c, s).into(), byte(c))
}
pub fn count(c: &mut Ctx, s: &Swarm) -> usize {
    if s.vast && c.chance(1, 2) {
        if c.chance(1, 6) {
            // around a literal of the source
            let d = c.dict_word().unwrap_or(32);
            let e = c.below(3);
            return if d <= 310 { (d as usize + e).saturating_sub(1) } else { 30 + e };
        }
        let more = *c.pick(&[20usize, 60, 120, 290]);
        return 20 + c.below(more);
    }
    if s.long && c.chance(1, 12) {
        return *c.pick(&[255usize, 256, 257, 254, 128, 65]);
    }
    c.below(s.max_items + 1)
}
pub fn input_kind(c: &mut Ctx, s: &Swarm, k: usize) -> Input {
    match k {
        0 => Input::CoinSigned {
            utxo_id: utxo(c, s),
            owner: id32(c, s).into(),
            amount: word(c),
            asset_id: asset(c, s),
            tx_pointer: ptr(c),
            witness_index: byte(c),
            maturity: word(c),
        },
        1 => Input::CoinPredicate {
            utxo_id: utxo(c, s),
            owner: id32(c, s).into(),
            amount: word(c),
            asset_id: asset(c, s),
            tx_pointer: ptr(c),
            maturity: word(c),
            predicate: nonempty_blob(c, s),
            predicate_data: blob(c, s),
        },
        2 => Input::Contract {
            utxo_id: utxo(c, s),
            balance_root: id32(c, s).into(),
            state_root: id32(c, s).into(),
            tx_pointer: ptr(c),
            contract_id: id32(c, s).into(),
        },
        3 => Input::MessageSigned {
            message_id: id32(c, s).into(),
            sender: id32(c, s).into(),
            recipient: id32(c, s).into(),
            amount: word(c),
            nonce: word(c),
            witness_index: byte(c),
            data: blob(c, s),
        },
        _ => Input::MessagePredicate {
            message_id: id32(c, s).into(),
            sender: id32(c, s).into(),
            recipient: id32(c, s).into(),
            amount: word(c),
            nonce: word(c),
            data: blob(c, s),
            predicate: nonempty_blob(c, s),
            predicate_data: blob(c, s),
        },
    }
}
pub fn input(c: &mut Ctx, s: &Swarm) -> Input {
    let k = *c.pick(&s.in_kinds);
    input_kind(c, s, k)
}
pub fn output_kind(c: &mut Ctx, s: &Swarm, k: usize) -> Output {
    match k {
        0 => Output::Coin { to: id32(c, s).into(), amount: word(c), asset_id: asset(c, s) },
        1 => Output::Contract {
            input_index: byte(c),
            balance_root: id32(c, s).into(),
            state_root: id32(c, s).into(),
        },
        2 => Output::Message { recipient: id32(c, s).into(), amount: word(c) },
        3 => Output::Change { to: id32(c, s).into(), amount: word(c), asset_id: asset(c, s) },
        4 => Output::Variable { to: id32(c, s).into(), amount: word(c), asset_id: asset(c, s) },
        _ => Output::ContractCreated { contract_id: id32(c, s).into(), state_root: id32(c, s).into() },
    }
}
pub fn output(c: &mut Ctx, s: &Swarm) -> Output {
    let k = *c.pick(&s.out_kinds);
    output_kind(c, s, k)
}
pub fn kind(c: &mut Ctx) -> Kind {
    *c.pick(&[Kind::Script, Kind::Create, Kind::Script, Kind::Create, Kind::Mint])
}
/// Arbitrary content, need not be valid.
pub fn any_tx(c: &mut Ctx, s: &Swarm) -> M {
    let k = kind(c);
    any_tx_kind(c, s, k)
}
pub fn any_tx_kind(c: &mut Ctx, s: &Swarm, k: Kind) -> M {
    let mut m = M::empty(k);
    c.mark();
    if k == Kind::Mint {
        let p = ptr(c);
        m.tx_pointer = (p.block_height(), p.tx_index());
    } else {
        m.gas_price = word(c);
        m.gas_limit = word(c);
        m.maturity = word(c);
        if k == Kind::Script {
            m.receipts_root = id32(c, s);
            m.script = blob(c, s);
            m.data = blob(c, s);
        } else {
            m.bytecode_length = word(c);
            m.bytecode_witness_index = byte(c);
            m.salt = id32(c, s);
            let n = count(c, s);
            for _ in 0..n {
                m.slots.push((id32(c, s), id32(c, s)));
            }
        }
        let n = count(c, s);
        for _ in 0..n {
            c.mark();
            let x = match m.inputs.last() {
                Some(_) if c.chance(1, 16) => m.inputs[c.below(m.inputs.len())].clone(),
                _ => input(c, s),
            };
            m.inputs.push(x);
        }
        let n = count(c, s);
        for _ in 0..n {
            c.mark();
            m.witnesses.push(blob(c, s));
        }
    }
    let n = count(c, s);
    for _ in 0..n {
        c.mark();
        let x = match m.outputs.last() {
            Some(_) if c.chance(1, 16) => m.outputs[c.below(m.outputs.len())],
            _ => output(c, s),
        };
        m.outputs.push(x);
    }
    m
}

/// Secret key number i of the run's key ring (fixed keys: making them is slow).
pub fn secret(i: usize) -> fuel_crypto::SecretKey {
    let mut b = [0u8; 32];
    b[31] = i as u8 + 1;
    b[7] = 0x5a;
    fuel_crypto::SecretKey::try_from(&b[..]).expect("key")
}
pub const KEYS: usize = 6;
/// keys in the ring; those beyond KEYS only appear in vast transactions
pub const RING_KEYS: usize = 64;
thread_local! {
    static RING: Vec<(fuel_crypto::SecretKey, fuel_crypto::PublicKey, B32)> = (0..RING_KEYS)
        .map(|i| { let s = secret(i); let p = s.public_key(); let o = owner_of(p.as_ref()); (s, p, o) })
        .collect();
}
/// which key of the ring owns this address
pub fn key_of(owner: &B32) -> Option<usize> {
    thread_local! {
        static BY_OWNER: std::collections::HashMap<B32, usize> = (0..RING_KEYS).map(|i| (key(i).2, i)).collect();
    }
    BY_OWNER.with(|m| m.get(owner).copied())
}
pub fn key(i: usize) -> (fuel_crypto::SecretKey, fuel_crypto::PublicKey, B32) {
    RING.with(|r| r[i % RING_KEYS].clone())
}

pub fn params(c: &mut Ctx) -> ConsensusParameters {
    let mut p = ConsensusParameters::DEFAULT;
    let mode = c.below(4);
    if mode == 0 {
        return p;
    }
    let lim = |c: &mut Ctx, d: u64, scale: u64| -> u64 {
        match c.below(if mode == 1 { 3 } else { 7 }) {
            0 | 1 => d,
            2 => c.draw(scale + 1),
            3 => u64::MAX,
            4 => (1u64 << 32) + c.draw(3),
            5 => d + c.draw(scale),
            _ => scale,
        }
    };
    p.contract_max_size = lim(c, p.contract_max_size, 64);
    p.max_inputs = lim(c, p.max_inputs, 6);
    p.max_outputs = lim(c, p.max_outputs, 6);
    p.max_witnesses = lim(c, p.max_witnesses, 6);
    p.max_gas_per_tx = lim(c, p.max_gas_per_tx, 1000);
    p.max_script_length = lim(c, p.max_script_length, 40);
    p.max_script_data_length = lim(c, p.max_script_data_length, 40);
    p.max_storage_slots = lim(c, p.max_storage_slots, 6);
    p.max_predicate_length = lim(c, p.max_predicate_length, 40);
    p.max_predicate_data_length = lim(c, p.max_predicate_data_length, 40);
    p.max_message_data_length = lim(c, p.max_message_data_length, 40);
    p.gas_price_factor = match c.below(5) {
        0 | 1 => p.gas_price_factor,
        2 => 1,
        3 => 1 + c.draw(100),
        _ => word(c).max(1),
    };
    p.gas_per_byte = match c.below(5) {
        0 | 1 => p.gas_per_byte,
        2 => 0,
        3 => c.draw(100),
        _ => word(c),
    };
    p
}

/// A transaction that satisfies the rules under `p` at `height` where the limits permit
/// (mostly; the model has the last word). Unsigned: witnesses of signed inputs are empty.
pub fn valid_tx(c: &mut Ctx, s: &Swarm, p: &ConsensusParameters, height: u64, k: Kind) -> M {
    let mut m = M::empty(k);
    let clip = |n: usize, lim: u64| -> usize { (n as u64).min(lim) as usize };
    if k == Kind::Mint {
        m.tx_pointer = (height.min(u32::MAX as u64) as u32, c.draw(65536) as u16);
        let n = clip(c.below(s.ids.len() + 1), p.max_outputs);
        for i in 0..n {
            let a = s.ids[i];
            if m.outputs.iter().any(|o| matches!(o, Output::Coin{asset_id,..} if **asset_id == a)) {
                continue;
            }
            m.outputs.push(Output::Coin { to: id32(c, s).into(), amount: word(c), asset_id: a.into() });
        }
        return m;
    }
    m.gas_limit = match c.below(4) {
        0 => small(c).min(p.max_gas_per_tx),
        1 => p.max_gas_per_tx - c.draw(2).min(p.max_gas_per_tx),
        _ => c.draw(p.max_gas_per_tx.min(1 << 30) + 1),
    };
    m.gas_price = match c.below(4) {
        0 => 0,
        1 => c.draw(10),
        2 => small(c),
        _ => word(c),
    };
    m.maturity = match c.below(3) {
        0 => 0,
        1 => height,
        _ => c.draw(height.max(1)),
    };
    let trim = |mut b: Vec<u8>, lim: u64| {
        b.truncate(clip(b.len(), lim));
        b
    };
    if k == Kind::Script {
        m.receipts_root = id32(c, s);
        m.script = trim(blob(c, s), p.max_script_length);
        m.data = trim(blob(c, s), p.max_script_data_length);
    } else {
        m.salt = id32(c, s);
        let n = clip(count(c, s), p.max_storage_slots);
        for _ in 0..n {
            m.slots.push((id32(c, s), id32(c, s)));
        }
        m.slots.sort_by_key(|x| x.0);
        let code = trim(blob(c, s), p.contract_max_size);
        m.bytecode_length = code.len() as u64 / 4;
        m.witnesses.push(code);
    }
    // inputs
    let nin = clip(count(c, s).max(if c.chance(3, 4) { 1 } else { 0 }), p.max_inputs);
    let amounts_small = c.chance(3, 4);
    let mut seq = 0u8;
    for i in 0..nin {
        c.mark();
        let kinds: &[usize] = if k == Kind::Create { &[0, 1, 3, 4] } else { &[0, 1, 2, 3, 4] };
        let mut kk = *c.pick(kinds);
        if !s.in_kinds.contains(&kk) && c.chance(1, 2) {
            kk = 0;
        }
        let mut x = input_kind(c, s, kk);
        seq = seq.wrapping_add(1);
        let amt = if amounts_small { small(c) } else { word(c) };
        let w = m.witnesses.len();
        let signer = if s.vast { c.below(RING_KEYS) } else { c.below(KEYS) };
        let share = c.chance(1, 3);
        let (_, _, owner) = key(signer);
        let mut need_witness = false;
        match &mut x {
            Input::CoinSigned { utxo_id, amount, owner: o, witness_index, .. } => {
                *utxo_id = UtxoId::new(*utxo_id.tx_id(), seq);
                *amount = amt;
                *o = owner.into();
                *witness_index = w as u8;
                need_witness = true;
            }
            Input::CoinPredicate { utxo_id, amount, owner, predicate, predicate_data, .. } => {
                *utxo_id = UtxoId::new(*utxo_id.tx_id(), seq);
                *amount = amt;
                predicate.truncate(clip(predicate.len(), p.max_predicate_length));
                predicate_data.truncate(clip(predicate_data.len(), p.max_predicate_data_length));
                *owner = predicate_owner(predicate).into();
            }
            Input::Contract { contract_id, .. } => {
                let mut b = **contract_id;
                b[3] = seq;
                *contract_id = b.into();
                if m.outputs.len() as u64 >= p.max_outputs || i > 255 {
                    continue;
                }
                let index = m.inputs.len();
                m.outputs.push(Output::Contract {
                    input_index: index as u8,
                    balance_root: id32(c, s).into(),
                    state_root: id32(c, s).into(),
                });
            }
            Input::MessageSigned { message_id, amount, recipient, witness_index, data, .. } => {
                let mut b = **message_id;
                b[5] = seq;
                *message_id = b.into();
                *amount = amt;
                *recipient = owner.into();
                *witness_index = w as u8;
                need_witness = true;
                data.truncate(clip(data.len(), p.max_message_data_length));
            }
            Input::MessagePredicate { message_id, amount, recipient, data, predicate, predicate_data, .. } => {
                let mut b = **message_id;
                b[5] = seq;
                *message_id = b.into();
                *amount = amt;
                data.truncate(clip(data.len(), p.max_message_data_length));
                predicate.truncate(clip(predicate.len(), p.max_predicate_length));
                predicate_data.truncate(clip(predicate_data.len(), p.max_predicate_data_length));
                *recipient = predicate_owner(predicate).into();
            }
        }
        if need_witness {
            // share the witness slot of an earlier input with the same owner
            let same = m.inputs.iter().find_map(|j| match j {
                Input::CoinSigned { owner: o, witness_index, .. }
                | Input::MessageSigned { recipient: o, witness_index, .. }
                    if **o == owner =>
                {
                    Some(*witness_index)
                }
                _ => None,
            });
            match same {
                Some(ix) if share => match &mut x {
                    Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } => {
                        *witness_index = ix
                    }
                    _ => {}
                },
                _ => {
                    if m.witnesses.len() as u64 >= p.max_witnesses || w > 255 {
                        continue;
                    }
                    m.witnesses.push(vec![]);
                }
            }
        }
        m.inputs.push(x);
    }
    if k == Kind::Create && c.chance(1, 3) && (m.witnesses.len() as u64) < p.max_witnesses && m.witnesses.len() < 200 {
        // bytecode somewhere else than first
        let code = m.witnesses[0].clone();
        m.witnesses.push(code);
        m.bytecode_witness_index = (m.witnesses.len() - 1) as u8;
    }
    while c.chance(1, 4) && (m.witnesses.len() as u64) < p.max_witnesses {
        m.witnesses.push(blob(c, s));
    }
    // fund the fee: raise a base input
    if let Bal::Refused(errs) = balances(&m, p) {
        for e in &errs {
            if let CheckError::InsufficientFeeAmount { expected, provided } = e {
                let lack = expected - provided;
                let slot = m.inputs.iter_mut().find(|i| in_asset(i) == Some(AssetId::BASE));
                match slot {
                    Some(
                        Input::CoinSigned { amount, .. }
                        | Input::CoinPredicate { amount, .. }
                        | Input::MessageSigned { amount, .. }
                        | Input::MessagePredicate { amount, .. },
                    ) => *amount = amount.saturating_add(lack).saturating_add(if c.chance(1, 2) { small(c) } else { 0 }),
                    _ => m.gas_price = 0,
                }
            }
        }
    }
    // outputs within the balances
    let nout = clip(count(c, s), p.max_outputs.saturating_sub(m.outputs.len() as u64));
    let mut changed: Vec<AssetId> = vec![];
    let mut created = false;
    let mut bal = match balances(&m, p) {
        Bal::Ok(b, _) | Bal::Either(b, _) => b,
        _ => Default::default(),
    };
    let assets: Vec<AssetId> = {
        let mut v: Vec<AssetId> = m.inputs.iter().filter_map(in_asset).collect();
        v.sort();
        v.dedup();
        v
    };
    for _ in 0..nout {
        c.mark();
        let kk = *c.pick(&[0usize, 3, 2, 4, 5, 0]);
        let x = match kk {
            0 if !assets.is_empty() => {
                let a = *c.pick(&assets);
                let left = bal.get(&a).copied().unwrap_or(0);
                let amount = match c.below(4) {
                    0 => left,
                    1 => 0,
                    _ => {
                        if left == u64::MAX {
                            c.draw(0)
                        } else {
                            c.draw(left + 1)
                        }
                    }
                };
                bal.insert(a, left.saturating_sub(amount));
                Output::Coin { to: id32(c, s).into(), amount: amount.min(left), asset_id: a }
            }
            3 if !assets.is_empty() => {
                let a = *c.pick(&assets);
                if changed.contains(&a) || (k == Kind::Create && a != AssetId::BASE) {
                    continue;
                }
                changed.push(a);
                Output::Change { to: id32(c, s).into(), amount: word(c), asset_id: a }
            }
            2 => Output::Message { recipient: id32(c, s).into(), amount: word(c) },
            4 if k == Kind::Script => {
                Output::Variable { to: id32(c, s).into(), amount: word(c), asset_id: asset(c, s) }
            }
            5 if k == Kind::Create && !created => {
                created = true;
                Output::ContractCreated { contract_id: id32(c, s).into(), state_root: id32(c, s).into() }
            }
            _ => continue,
        };
        // keep outputs of contracts and others interleaved
        if c.chance(1, 3) {
            let at = c.below(m.outputs.len() + 1);
            m.outputs.insert(at, x);
        } else {
            m.outputs.push(x);
        }
    }
    m
}

thread_local! {
    static SIGNED: std::cell::RefCell<std::collections::HashMap<(usize, B32), Vec<u8>>> = Default::default();
}
/// Signature of `msg` by key k of the ring (deterministic; signing is slow, so remembered).
pub fn model_sign(k: usize, msg: &B32) -> Vec<u8> {
    if let Some(r) = SIGNED.with(|m| m.borrow().get(&(k, *msg)).cloned()) {
        return r;
    }
    let message = unsafe { fuel_crypto::Message::from_bytes_unchecked(*msg) };
    let r = fuel_crypto::Signature::sign(&key(k).0, &message).as_ref().to_vec();
    SIGNED.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 4096 {
            m.clear();
        }
        m.insert((k, *msg), r.clone())
    });
    r
}

/// Sign every signed input with its owner's key.
pub fn sign_model(m: &mut M) {
    let txid = id(m);
    let targets: Vec<(u8, Address)> = m
        .inputs
        .iter()
        .filter_map(|i| match i {
            Input::CoinSigned { owner, witness_index, .. }
            | Input::MessageSigned { recipient: owner, witness_index, .. } => Some((*witness_index, *owner)),
            _ => None,
        })
        .collect();
    for (w, o) in targets {
        if let Some(k) = key_of(&o) {
            if let Some(x) = m.witnesses.get_mut(w as usize) {
                *x = model_sign(k, &txid);
            }
        }
    }
}

/// A mutation aimed at the validity rules; returns a label.
pub fn rule_mutation(c: &mut Ctx, s: &Swarm, m: &mut M, p: &ConsensusParameters, height: u64) -> &'static str {
    let ni = m.inputs.len();
    let no = m.outputs.len();
    let at_in = c.below(ni.max(1));
    let at_out = c.below(no.max(1));
    if m.kind == Kind::Mint {
        match c.below(5) {
            0 => {
                m.tx_pointer.0 = m.tx_pointer.0.wrapping_add(*c.pick(&[1u32, u32::MAX]));
                "mint height"
            }
            1 if no > 0 => {
                let o = m.outputs[at_out];
                let at = c.below(no + 1);
                m.outputs.insert(at, o);
                "mint duplicate"
            }
            2 => {
                let x = output(c, s);
                let at = c.below(no + 1);
                m.outputs.insert(at, x);
                "mint foreign output"
            }
            3 => {
                while (m.outputs.len() as u64) <= p.max_outputs && m.outputs.len() < 300 {
                    let mut a = [0u8; 32];
                    a[0] = 0xEE;
                    a[1] = m.outputs.len() as u8;
                    a[2] = (m.outputs.len() >> 8) as u8;
                    m.outputs.push(Output::Coin { to: [1; 32].into(), amount: 1, asset_id: a.into() });
                }
                if c.chance(1, 2) {
                    m.outputs.pop();
                }
                "mint outputs at limit"
            }
            _ => "none",
        }
    } else {
        let fill_blob = |c: &mut Ctx, b: &mut Vec<u8>, lim: u64| {
            if lim < 70_000 * 4 {
                let n = lim as usize + c.below(3);
                b.resize(n.saturating_sub(1), 0x24);
            }
        };
        match c.below(34) {
            0 => {
                m.gas_limit = p.max_gas_per_tx.saturating_add(c.draw(2));
                "gas limit at bound"
            }
            1 => {
                m.maturity = height.saturating_add(c.draw(2));
                "maturity at bound"
            }
            2 => {
                // inputs at limit
                if p.max_inputs < 300 {
                    while (m.inputs.len() as u64) < p.max_inputs + 1 {
                        let mut x = input_kind(c, s, 1);
                        if let Input::CoinPredicate { utxo_id, predicate, predicate_data, amount, asset_id, .. } = &mut x {
                            *utxo_id = UtxoId::new([m.inputs.len() as u8; 32].into(), 200);
                            predicate.truncate((p.max_predicate_length as usize).min(9));
                            if predicate.is_empty() {
                                predicate.push(1);
                            }
                            predicate_data.clear();
                            *amount = 0;
                            *asset_id = AssetId::BASE;
                        }
                        m.inputs.push(x);
                    }
                    if c.chance(1, 2) {
                        m.inputs.pop();
                    }
                }
                "inputs at limit"
            }
            3 => {
                if p.max_outputs < 300 {
                    while (m.outputs.len() as u64) < p.max_outputs + 1 {
                        m.outputs.push(Output::Message { recipient: [2; 32].into(), amount: 3 });
                    }
                    if c.chance(1, 2) {
                        m.outputs.pop();
                    }
                }
                "outputs at limit"
            }
            4 => {
                if p.max_witnesses < 300 {
                    while (m.witnesses.len() as u64) < p.max_witnesses + 1 {
                        m.witnesses.push(vec![1]);
                    }
                    if c.chance(1, 2) {
                        m.witnesses.pop();
                    }
                }
                "witnesses at limit"
            }
            5 | 6 => {
                // change outputs
                let a = if ni > 0 { in_asset(&m.inputs[at_in]).unwrap_or_default() } else { asset(c, s) };
                let k = c.range(1, 2);
                for _ in 0..k {
                    let at = c.below(m.outputs.len() + 1);
                    m.outputs.insert(at, Output::Change { to: id32(c, s).into(), amount: word(c), asset_id: a });
                }
                "change duplicated"
            }
            7 => {
                let a = asset(c, s);
                let at = c.below(no + 1);
                m.outputs.insert(at, Output::Change { to: id32(c, s).into(), amount: word(c), asset_id: a });
                "change of some asset"
            }
            8 => {
                let a = asset(c, s);
                let at = c.below(no + 1);
                m.outputs.insert(at, Output::Coin { to: id32(c, s).into(), amount: word(c) & 3, asset_id: a });
                "coin of some asset"
            }
            9..=12 if ni > 0 => {
                // duplicate the identity of an input in another, possibly of other kind
                let src = m.inputs[at_in].clone();
                let mut x = match (c.below(3), &src) {
                    (0, _) => src.clone(),
                    (1, Input::Contract { .. }) => input_kind(c, s, 2),
                    (1, Input::CoinSigned { .. } | Input::CoinPredicate { .. }) => {
                        let k = c.below(2);
                        input_kind(c, s, k)
                    }
                    (1, _) => {
                        let k = 3 + c.below(2);
                        input_kind(c, s, k)
                    }
                    _ => input(c, s),
                };
                match (&src, &mut x) {
                    (
                        Input::CoinSigned { utxo_id: u, .. } | Input::CoinPredicate { utxo_id: u, .. } | Input::Contract { utxo_id: u, .. },
                        Input::CoinSigned { utxo_id, .. } | Input::CoinPredicate { utxo_id, .. } | Input::Contract { utxo_id, .. },
                    ) => {
                        *utxo_id = *u;
                        if c.chance(1, 4) {
                            *utxo_id = UtxoId::new(*u.tx_id(), u.output_index() ^ 1);
                        }
                    }
                    (
                        Input::MessageSigned { message_id: u, .. } | Input::MessagePredicate { message_id: u, .. },
                        Input::MessageSigned { message_id, .. } | Input::MessagePredicate { message_id, .. },
                    ) => *message_id = *u,
                    _ => {}
                }
                if let (Input::Contract { contract_id: u, .. }, Input::Contract { contract_id, .. }) = (&src, &mut x) {
                    *contract_id = *u;
                }
                match &mut x {
                    Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } => {
                        *witness_index = 0
                    }
                    Input::Contract { .. } => m.outputs.push(Output::Contract {
                        input_index: ni as u8,
                        balance_root: [0; 32].into(),
                        state_root: [0; 32].into(),
                    }),
                    _ => {}
                }
                if c.chance(2, 3) {
                    m.inputs.push(x);
                } else {
                    let at = c.below(ni);
                    m.inputs[at] = x;
                }
                "duplicate input identity"
            }
            13..=15 if ni > 0 => {
                match &mut m.inputs[at_in] {
                    Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } => {
                        *witness_index = match c.below(3) {
                            0 => m.witnesses.len() as u8,
                            1 => 255,
                            _ => (m.witnesses.len() as u8).wrapping_sub(1),
                        }
                    }
                    Input::CoinPredicate { predicate, predicate_data, .. } => match c.below(3) {
                        0 => predicate.clear(),
                        1 => fill_blob(c, predicate, p.max_predicate_length),
                        _ => fill_blob(c, predicate_data, p.max_predicate_data_length),
                    },
                    Input::MessagePredicate { predicate, predicate_data, data, .. } => match c.below(4) {
                        0 => predicate.clear(),
                        1 => fill_blob(c, predicate, p.max_predicate_length),
                        2 => fill_blob(c, data, p.max_message_data_length),
                        _ => fill_blob(c, predicate_data, p.max_predicate_data_length),
                    },
                    Input::Contract { .. } => {
                        m.outputs.retain(|o| !matches!(o, Output::Contract{input_index,..} if *input_index as usize == at_in));
                    }
                }
                if let Input::MessageSigned { data, .. } = &mut m.inputs[at_in] {
                    if c.chance(1, 2) {
                        fill_blob(c, data, p.max_message_data_length);
                    }
                }
                "input rule"
            }
            16..=18 => {
                let ix = match c.below(3) {
                    0 => byte(c),
                    1 => ni as u8,
                    _ => at_in as u8,
                };
                let at = c.below(no + 1);
                m.outputs.insert(
                    at,
                    Output::Contract { input_index: ix, balance_root: id32(c, s).into(), state_root: id32(c, s).into() },
                );
                "contract output index"
            }
            19 => {
                fill_blob(c, &mut m.script, p.max_script_length);
                "script length"
            }
            20 => {
                fill_blob(c, &mut m.data, p.max_script_data_length);
                "script data length"
            }
            21 => {
                let at = c.below(no + 1);
                m.outputs.insert(at, output_kind(c, s, 5));
                "contract created"
            }
            22 => {
                let at = c.below(no + 1);
                m.outputs.insert(at, output_kind(c, s, 4));
                "variable"
            }
            23 => {
                m.bytecode_witness_index = match c.below(3) {
                    0 => m.witnesses.len() as u8,
                    1 => 255,
                    _ => byte(c),
                };
                "bytecode index"
            }
            24 => {
                m.bytecode_length = m.bytecode_length.wrapping_add(*c.pick(&[1, u64::MAX, 1 << 32, 1 << 61, 1 << 62]));
                "bytecode length"
            }
            25 => {
                let ix = m.bytecode_witness_index as usize;
                if m.kind == Kind::Create {
                    if let Some(w) = m.witnesses.get_mut(ix) {
                        fill_blob(c, w, p.contract_max_size);
                        if c.chance(3, 4) {
                            m.bytecode_length = w.len() as u64 / 4;
                        }
                    }
                }
                "bytecode size"
            }
            26 => {
                if p.max_storage_slots < 300 && m.kind == Kind::Create {
                    let mut k = 0u8;
                    while (m.slots.len() as u64) < p.max_storage_slots + 1 {
                        k = k.wrapping_add(1);
                        m.slots.push(([k; 32], [1; 32]));
                    }
                    if c.chance(1, 2) {
                        m.slots.pop();
                    }
                    m.slots.sort();
                }
                "slots at limit"
            }
            27 | 28 => {
                let n = m.slots.len();
                if n > 1 {
                    let i = c.below(n - 1);
                    match c.below(4) {
                        0 => m.slots.swap(i, i + 1),
                        1 => m.slots[i + 1].0 = m.slots[i].0,
                        2 => {
                            // next to each other, one byte and one step apart
                            let b = *c.pick(&[0usize, 7, 8, 15, 16, 23, 24, 30, 31]);
                            m.slots[i + 1].0 = m.slots[i].0;
                            m.slots[i + 1].0[b] = m.slots[i].0[b].wrapping_add(*c.pick(&[1u8, 255, 128]));
                        }
                        _ => {
                            let j = c.below(n);
                            m.slots.swap(i, j)
                        }
                    }
                }
                "slot order"
            }
            29 if ni > 256 && c.chance(1, 2) => {
                // a contract whose index looks like that of another in eight bits
                let at = 256 + c.below(ni - 256);
                for j in [at - 256, at] {
                    let mut x = input_kind(c, s, 2);
                    if let Input::Contract { contract_id, .. } = &mut x {
                        *contract_id = [j as u8, (j >> 8) as u8, 0xC0].repeat(11)[..32].try_into().map(|b: [u8; 32]| b.into()).unwrap();
                    }
                    m.inputs[j] = x;
                }
                m.outputs.retain(|o| !matches!(o, Output::Contract{input_index,..} if *input_index as usize == at - 256));
                let at_out = c.below(m.outputs.len() + 1);
                m.outputs.insert(
                    at_out,
                    Output::Contract { input_index: (at - 256) as u8, balance_root: id32(c, s).into(), state_root: id32(c, s).into() },
                );
                "contract input beyond indexes"
            }
            29 => {
                let x = input_kind(c, s, 2);
                m.inputs.push(x);
                if c.chance(2, 3) {
                    m.outputs.push(Output::Contract {
                        input_index: ni as u8,
                        balance_root: [0; 32].into(),
                        state_root: [0; 32].into(),
                    });
                }
                "contract input"
            }
            30 | 31 if ni > 0 => {
                // amounts
                let w = word(c);
                match &mut m.inputs[at_in] {
                    Input::CoinSigned { amount, .. }
                    | Input::CoinPredicate { amount, .. }
                    | Input::MessageSigned { amount, .. }
                    | Input::MessagePredicate { amount, .. } => *amount = w,
                    _ => {}
                }
                "input amount"
            }
            32 => {
                m.gas_price = word(c);
                "gas price"
            }
            33 if no > 0 => {
                if let Output::Coin { amount, .. } = &mut m.outputs[at_out] {
                    *amount = amount.wrapping_add(1);
                }
                "output amount"
            }
            _ => "none",
        }
    }
}

/// Lists longer than a byte can count, under limits that allow them, with something to see at their
/// far end; returns a label.
pub fn crowd(c: &mut Ctx, s: &Swarm, m: &mut M, p: &mut ConsensusParameters) -> &'static str {
    if m.kind == Kind::Mint {
        return "none";
    }
    for l in [&mut p.max_inputs, &mut p.max_outputs, &mut p.max_witnesses] {
        *l = (*l).max(600);
    }
    let root: B32 = [0; 32];
    let contract_out = |i: usize| Output::Contract { input_index: i as u8, balance_root: root.into(), state_root: root.into() };
    let filler = |n: usize, asset: AssetId, p: &ConsensusParameters| {
        let mut t = [0xF1u8; 32];
        t[0] = n as u8;
        t[1] = (n >> 8) as u8;
        let predicate = vec![7u8; (p.max_predicate_length as usize).clamp(1, 4)];
        Input::CoinPredicate {
            utxo_id: UtxoId::new(t.into(), 77),
            owner: predicate_owner(&predicate).into(),
            amount: 0,
            asset_id: asset,
            tx_pointer: Default::default(),
            maturity: 0,
            predicate,
            predicate_data: vec![],
        }
    };
    let far_asset: AssetId = [0xFA; 32].into();
    match c.below(7) {
        what @ 0..=4 => {
            let n = 257 + c.below(8);
            while m.inputs.len() < n {
                let x = filler(m.inputs.len(), AssetId::BASE, p);
                m.inputs.push(x);
            }
            let far = 256 + c.below(n - 256);
            let near = c.below(256);
            match what {
                0 | 1 => {
                    // a contract at the far end; the output that would be its own belongs to one
                    // whose index looks the same in eight bits, or is not there, or is
                    // for another
                    let other = if c.chance(3, 4) { far - 256 } else { near };
                    for j in [other, far] {
                        let mut x = input_kind(c, s, 2);
                        if let Input::Contract { contract_id, utxo_id, .. } = &mut x {
                            let mut id = [0xC0u8; 32];
                            id[..2].copy_from_slice(&[j as u8, (j >> 8) as u8]);
                            *contract_id = id.into();
                            *utxo_id = UtxoId::new(id.into(), 3);
                        }
                        m.inputs[j] = x;
                    }
                    m.outputs.retain(|o| !matches!(o, Output::Contract{input_index,..} if *input_index as usize == other));
                    if c.chance(5, 6) {
                        m.outputs.push(contract_out(other));
                    }
                    "contract at the far end"
                }
                2 => {
                    let mut x = m.inputs[near].clone();
                    if let Input::CoinSigned { witness_index, .. } | Input::MessageSigned { witness_index, .. } = &mut x {
                        *witness_index = (*witness_index).min(m.witnesses.len().saturating_sub(1) as u8);
                    }
                    m.inputs[far] = x;
                    "repeated at the far end"
                }
                3 => {
                    // an asset that only the far end brings
                    m.inputs[far] = filler(far, far_asset, p);
                    m.outputs.push(Output::Change { to: root.into(), amount: 0, asset_id: far_asset });
                    if c.chance(1, 3) {
                        m.outputs.push(Output::Change { to: root.into(), amount: 1, asset_id: far_asset });
                    }
                    if c.chance(1, 3) {
                        m.inputs[far] = filler(far, AssetId::BASE, p);
                    }
                    "asset of the far end"
                }
                _ => {
                    if let Input::CoinPredicate { predicate, predicate_data, .. } = &mut m.inputs[far] {
                        match c.below(3) {
                            0 => predicate.clear(),
                            1 if p.max_predicate_length < 5000 => predicate.resize(p.max_predicate_length as usize + c.below(2), 7),
                            _ if p.max_predicate_data_length < 5000 => predicate_data.resize(p.max_predicate_data_length as usize + c.below(2), 7),
                            _ => {}
                        }
                    }
                    "input rule at the far end"
                }
            }
        }
        5 => {
            while m.outputs.len() < 257 + c.below(4) {
                m.outputs.push(Output::Message { recipient: [2; 32].into(), amount: 3 });
            }
            let a = if m.inputs.is_empty() { AssetId::BASE } else { in_asset(&m.inputs[0]).unwrap_or_default() };
            match c.below(4) {
                0 => m.outputs.push(Output::Change { to: root.into(), amount: 0, asset_id: a }),
                1 => m.outputs.push(Output::Coin { to: root.into(), amount: 1, asset_id: far_asset }),
                2 => m.outputs.push(Output::ContractCreated { contract_id: root.into(), state_root: root.into() }),
                _ => m.outputs.push(contract_out(c.below(m.inputs.len() + 1))),
            }
            "outputs beyond a byte"
        }
        _ => {
            while m.witnesses.len() < 256 + c.below(4) {
                m.witnesses.push(vec![1]);
            }
            if m.kind == Kind::Create && c.chance(1, 2) {
                m.bytecode_witness_index = 255;
                m.bytecode_length = c.draw(2);
            }
            "witnesses beyond a byte"
        }
    }
}

/// Single field edit that must change the id (covered), or must not (malleable).
/// Returns (label, covered).
pub fn field_edit(c: &mut Ctx, s: &Swarm, m: &mut M) -> (&'static str, bool) {
    let before = id_preimage(m);
    let flip32 = |c: &mut Ctx, b: &B32| -> B32 {
        let mut b = *b;
        let i = c.below(32);
        b[i] ^= 1 << c.below(8);
        b
    };
    let bump = |c: &mut Ctx, w: u64| -> u64 { w ^ (1u64 << c.draw(64)) };
    let edit_blob = |c: &mut Ctx, b: &mut Vec<u8>| {
        match c.below(4) {
            0 => b.push(0),
            1 if !b.is_empty() => {
                b.pop();
            }
            2 if !b.is_empty() => {
                let i = c.below(b.len());
                b[i] ^= 1 << c.below(8);
            }
            _ => b.push(c.draw(256) as u8),
        }
    };
    let ni = m.inputs.len();
    let no = m.outputs.len();
    let label = match c.below(12) {
        0 => match m.kind {
            Kind::Mint => {
                m.tx_pointer.0 ^= 1 << c.below(32);
                "tx pointer block"
            }
            _ => {
                m.gas_price = bump(c, m.gas_price);
                "gas price"
            }
        },
        1 => match m.kind {
            Kind::Mint => {
                m.tx_pointer.1 ^= 1 << c.below(16);
                "tx pointer index"
            }
            _ => {
                m.gas_limit = bump(c, m.gas_limit);
                "gas limit"
            }
        },
        2 if m.kind != Kind::Mint => {
            m.maturity = bump(c, m.maturity);
            "maturity"
        }
        3 => match m.kind {
            Kind::Script => {
                if c.chance(1, 2) {
                    edit_blob(c, &mut m.script);
                    "script"
                } else {
                    edit_blob(c, &mut m.data);
                    "script data"
                }
            }
            Kind::Create => match c.below(4) {
                0 => {
                    m.salt = flip32(c, &m.salt);
                    "salt"
                }
                1 => {
                    m.bytecode_length = bump(c, m.bytecode_length);
                    "bytecode length"
                }
                2 => {
                    m.bytecode_witness_index ^= 1 << c.below(8);
                    "bytecode witness index"
                }
                _ => {
                    let n = m.slots.len();
                    match c.below(4) {
                        0 => m.slots.push((id32(c, s), id32(c, s))),
                        1 if n > 0 => {
                            let i = c.below(n);
                            m.slots[i].0 = flip32(c, &m.slots[i].0)
                        }
                        2 if n > 0 => {
                            let i = c.below(n);
                            m.slots[i].1 = flip32(c, &m.slots[i].1)
                        }
                        _ => {
                            m.slots.pop();
                        }
                    }
                    "slots"
                }
            },
            Kind::Mint => {
                m.outputs.push(output(c, s));
                "output added"
            }
        },
        4 if m.kind != Kind::Mint => {
            if m.kind == Kind::Script {
                m.receipts_root = flip32(c, &m.receipts_root);
            }
            "receipts root"
        }
        5 if m.kind != Kind::Mint => {
            let n = m.witnesses.len();
            match c.below(4) {
                0 => m.witnesses.push(blob(c, s)),
                1 if n > 0 => {
                    m.witnesses.pop();
                }
                2 if n > 1 => m.witnesses.swap(0, n - 1),
                _ if n > 0 => {
                    let i = c.below(n);
                    edit_blob(c, &mut m.witnesses[i]);
                }
                _ => {}
            }
            "witnesses"
        }
        6..=8 if m.kind != Kind::Mint => {
            if ni == 0 || c.chance(1, 8) {
                match c.below(3) {
                    0 if ni > 0 => {
                        m.inputs.pop();
                    }
                    1 if ni > 1 => m.inputs.swap(0, ni - 1),
                    _ => m.inputs.push(input(c, s)),
                }
                "input list"
            } else {
                let i = c.below(ni);
                edit_input(c, &mut m.inputs[i], &flip32, &bump, &edit_blob)
            }
        }
        _ => {
            if no == 0 || c.chance(1, 8) {
                match c.below(3) {
                    0 if no > 0 => {
                        m.outputs.pop();
                    }
                    1 if no > 1 => m.outputs.swap(0, no - 1),
                    _ => m.outputs.push(output(c, s)),
                }
                "output list"
            } else {
                let i = c.below(no);
                edit_output(c, &mut m.outputs[i], &flip32, &bump)
            }
        }
    };
    (label, id_preimage(m) != before)
}
pub fn edit_input(
    c: &mut Ctx,
    x: &mut Input,
    flip32: &dyn Fn(&mut Ctx, &B32) -> B32,
    bump: &dyn Fn(&mut Ctx, u64) -> u64,
    edit_blob: &dyn Fn(&mut Ctx, &mut Vec<u8>),
) -> &'static str {
    let e_utxo = |c: &mut Ctx, u: &mut UtxoId| {
        *u = if c.chance(1, 2) {
            UtxoId::new(flip32(c, u.tx_id()).into(), u.output_index())
        } else {
            UtxoId::new(*u.tx_id(), u.output_index() ^ (1 << c.below(8)))
        }
    };
    let e_ptr = |c: &mut Ctx, p: &mut TxPointer| {
        *p = if c.chance(1, 2) {
            TxPointer::new(p.block_height() ^ (1 << c.below(32)), p.tx_index())
        } else {
            TxPointer::new(p.block_height(), p.tx_index() ^ (1 << c.below(16)))
        }
    };
    let nonempty = |c: &mut Ctx, b: &mut Vec<u8>| {
        edit_blob(c, b);
        if b.is_empty() {
            b.extend([7, 7]);
        }
    };
    match x {
        Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => match c.below(7) {
            0 => { e_utxo(c, utxo_id); "coin utxo" }
            1 => { *owner = flip32(c, owner).into(); "coin owner" }
            2 => { *amount = bump(c, *amount); "coin amount" }
            3 => { *asset_id = flip32(c, asset_id).into(); "coin asset" }
            4 => { e_ptr(c, tx_pointer); "coin tx pointer" }
            5 => { *witness_index ^= 1 << c.below(8); "coin witness index" }
            _ => { *maturity = bump(c, *maturity); "coin maturity" }
        },
        Input::CoinPredicate { utxo_id, owner, amount, asset_id, tx_pointer, maturity, predicate, predicate_data } => match c.below(8) {
            0 => { e_utxo(c, utxo_id); "coin utxo" }
            1 => { *owner = flip32(c, owner).into(); "coin owner" }
            2 => { *amount = bump(c, *amount); "coin amount" }
            3 => { *asset_id = flip32(c, asset_id).into(); "coin asset" }
            4 => { e_ptr(c, tx_pointer); "coin tx pointer" }
            5 => { nonempty(c, predicate); "coin predicate" }
            6 => { edit_blob(c, predicate_data); "coin predicate data" }
            _ => { *maturity = bump(c, *maturity); "coin maturity" }
        },
        Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => match c.below(5) {
            0 => { e_utxo(c, utxo_id); "contract utxo" }
            1 => { *balance_root = flip32(c, balance_root).into(); "contract balance root" }
            2 => { *state_root = flip32(c, state_root).into(); "contract state root" }
            3 => { e_ptr(c, tx_pointer); "contract tx pointer" }
            _ => { *contract_id = flip32(c, contract_id).into(); "contract id" }
        },
        Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => match c.below(7) {
            0 => { *message_id = flip32(c, message_id).into(); "message id" }
            1 => { *sender = flip32(c, sender).into(); "message sender" }
            2 => { *recipient = flip32(c, recipient).into(); "message recipient" }
            3 => { *amount = bump(c, *amount); "message amount" }
            4 => { *nonce = bump(c, *nonce); "message nonce" }
            5 => { *witness_index ^= 1 << c.below(8); "message witness index" }
            _ => { edit_blob(c, data); "message data" }
        },
        Input::MessagePredicate { message_id, sender, recipient, amount, nonce, data, predicate, predicate_data } => match c.below(8) {
            0 => { *message_id = flip32(c, message_id).into(); "message id" }
            1 => { *sender = flip32(c, sender).into(); "message sender" }
            2 => { *recipient = flip32(c, recipient).into(); "message recipient" }
            3 => { *amount = bump(c, *amount); "message amount" }
            4 => { *nonce = bump(c, *nonce); "message nonce" }
            5 => { nonempty(c, predicate); "message predicate" }
            6 => { edit_blob(c, predicate_data); "message predicate data" }
            _ => { edit_blob(c, data); "message data" }
        },
    }
}
pub fn edit_output(
    c: &mut Ctx,
    x: &mut Output,
    flip32: &dyn Fn(&mut Ctx, &B32) -> B32,
    bump: &dyn Fn(&mut Ctx, u64) -> u64,
) -> &'static str {
    match x {
        Output::Coin { to, amount, asset_id } => match c.below(3) {
            0 => { *to = flip32(c, to).into(); "out coin to" }
            1 => { *amount = bump(c, *amount); "out coin amount" }
            _ => { *asset_id = flip32(c, asset_id).into(); "out coin asset" }
        },
        Output::Change { to, amount, asset_id } => match c.below(3) {
            0 => { *to = flip32(c, to).into(); "out change to" }
            1 => { *amount = bump(c, *amount); "out change amount" }
            _ => { *asset_id = flip32(c, asset_id).into(); "out change asset" }
        },
        Output::Variable { to, amount, asset_id } => match c.below(3) {
            0 => { *to = flip32(c, to).into(); "out variable to" }
            1 => { *amount = bump(c, *amount); "out variable amount" }
            _ => { *asset_id = flip32(c, asset_id).into(); "out variable asset" }
        },
        Output::Message { recipient, amount } => match c.below(2) {
            0 => { *recipient = flip32(c, recipient).into(); "out message recipient" }
            _ => { *amount = bump(c, *amount); "out message amount" }
        },
        Output::Contract { input_index, balance_root, state_root } => match c.below(3) {
            0 => { *input_index ^= 1 << c.below(8); "out contract index" }
            1 => { *balance_root = flip32(c, balance_root).into(); "out contract balance root" }
            _ => { *state_root = flip32(c, state_root).into(); "out contract state root" }
        },
        Output::ContractCreated { contract_id, state_root } => match c.below(2) {
            0 => { *contract_id = flip32(c, contract_id).into(); "out created id" }
            _ => { *state_root = flip32(c, state_root).into(); "out created state root" }
        },
    }
}

/// Fill in every execution-filled field with fresh values ("the executor ran").
pub fn execute_fill(c: &mut Ctx, s: &Swarm, m: &mut M, p: u64) {
    m.receipts_root = if m.kind == Kind::Script { id32(c, s) } else { [0; 32] };
    for i in m.inputs.iter_mut() {
        if !c.chance(p, 10) {
            continue;
        }
        match i {
            Input::CoinSigned { tx_pointer, .. } | Input::CoinPredicate { tx_pointer, .. } => *tx_pointer = ptr(c),
            Input::Contract { utxo_id, balance_root, state_root, tx_pointer, .. } => {
                *utxo_id = utxo(c, s);
                *balance_root = id32(c, s).into();
                *state_root = id32(c, s).into();
                *tx_pointer = ptr(c);
            }
            _ => {}
        }
    }
    if m.kind == Kind::Mint {
        return;
    }
    for o in m.outputs.iter_mut() {
        if !c.chance(p, 10) {
            continue;
        }
        match o {
            Output::Contract { balance_root, state_root, .. } => {
                *balance_root = id32(c, s).into();
                *state_root = id32(c, s).into();
            }
            Output::Message { recipient, amount } => {
                *recipient = id32(c, s).into();
                *amount = word(c);
            }
            Output::Change { amount, .. } => *amount = word(c),
            Output::Variable { to, amount, asset_id } => {
                *to = id32(c, s).into();
                *amount = word(c);
                *asset_id = asset(c, s);
            }
            _ => {}
        }
    }
}

/// short description for traces and samples
pub fn describe(m: &M) -> String {
    let ins: Vec<String> = m
        .inputs
        .iter()
        .take(6)
        .map(|i| match i {
            Input::CoinSigned { amount, witness_index, .. } => format!("coin({amount},w{witness_index})"),
            Input::CoinPredicate { amount, predicate, predicate_data, .. } => {
                format!("coin-pred({amount},{}b,{}b)", predicate.len(), predicate_data.len())
            }
            Input::Contract { .. } => "contract".into(),
            Input::MessageSigned { amount, data, witness_index, .. } => {
                format!("msg({amount},{}b,w{witness_index})", data.len())
            }
            Input::MessagePredicate { amount, data, predicate, predicate_data, .. } => {
                format!("msg-pred({amount},{}b,{}b,{}b)", data.len(), predicate.len(), predicate_data.len())
            }
        })
        .collect();
    let outs: Vec<String> = m
        .outputs
        .iter()
        .take(6)
        .map(|o| match o {
            Output::Coin { amount, .. } => format!("coin({amount})"),
            Output::Contract { input_index, .. } => format!("contract(#{input_index})"),
            Output::Message { .. } => "message".into(),
            Output::Change { .. } => "change".into(),
            Output::Variable { .. } => "variable".into(),
            Output::ContractCreated { .. } => "created".into(),
        })
        .collect();
    format!(
        "{:?} price={} limit={} maturity={} script={}b data={}b slots={} in[{}]={} out[{}]={} wit={:?}",
        m.kind,
        m.gas_price,
        m.gas_limit,
        m.maturity,
        m.script.len(),
        m.data.len(),
        m.slots.len(),
        m.inputs.len(),
        ins.join(","),
        m.outputs.len(),
        outs.join(","),
        m.witnesses.iter().take(6).map(|w| w.len()).collect::<Vec<_>>()
    )
}
/// coarse shape for counting distinct histories
pub fn shape(m: &M) -> u64 {
    let mut h = m.kind as u64;
    let l = |n: usize| (usize::BITS - n.leading_zeros()) as u64 * 8 + (n % 8) as u64;
    for x in [m.script.len(), m.data.len(), m.slots.len(), m.inputs.len(), m.outputs.len(), m.witnesses.len()] {
        h = crate::core::mix(h, l(x));
    }
    for i in &m.inputs {
        h = crate::core::mix(h, strict_input(i).len() as u64 * 8 + strict_input(i).last().copied().unwrap_or(0) as u64);
    }
    for o in &m.outputs {
        h = crate::core::mix(
            h,
            match o {
                Output::Coin { .. } => 1,
                Output::Contract { .. } => 2,
                Output::Message { .. } => 3,
                Output::Change { .. } => 4,
                Output::Variable { .. } => 5,
                Output::ContractCreated { .. } => 6,
            },
        );
    }
    h
}

/// A receipt as an executor would emit it; lengths and digests are free fields of the journal.
pub fn receipt(c: &mut Ctx, s: &Swarm) -> Receipt {
    use fuel_asm::{Instruction, InstructionResult, PanicReason};
    let k = c.below(11);
    let id: ContractId = id32(c, s).into();
    let (pc, is) = (word(c), word(c));
    match k {
        0 => Receipt::call(id, id32(c, s).into(), word(c), asset(c, s), word(c), word(c), word(c), pc, is),
        1 => Receipt::ret(id, word(c), pc, is),
        2 => {
            if c.chance(1, 2) {
                Receipt::return_data(id, word(c), id32(c, s).into(), blob(c, s), pc, is)
            } else {
                Receipt::return_data_with_len(id, word(c), word(c), id32(c, s).into(), blob(c, s), pc, is)
            }
        }
        3 => {
            let r = 1 + c.draw(60);
            let reason = InstructionResult::error(PanicReason::from(r), Instruction::from(c.draw(1 << 32) as u32));
            // canonical: what the word can carry
            let reason = InstructionResult::from(u64::from(reason));
            let p = Receipt::panic(id, reason, pc, is);
            if c.chance(1, 2) {
                p.with_panic_contract_id(Some(id32(c, s).into()))
            } else {
                p
            }
        }
        4 => Receipt::revert(id, word(c), pc, is),
        5 => Receipt::log(id, word(c), word(c), word(c), word(c), pc, is),
        6 => {
            if c.chance(1, 2) {
                Receipt::log_data(id, word(c), word(c), word(c), id32(c, s).into(), blob(c, s), pc, is)
            } else {
                Receipt::log_data_with_len(id, word(c), word(c), word(c), word(c), id32(c, s).into(), blob(c, s), pc, is)
            }
        }
        7 => Receipt::transfer(id, id32(c, s).into(), word(c), asset(c, s), pc, is),
        8 => Receipt::transfer_out(id, id32(c, s).into(), word(c), asset(c, s), pc, is),
        9 => {
            let r = match c.below(4) {
                0 => ScriptExecutionResult::Success,
                1 => ScriptExecutionResult::Revert,
                2 => ScriptExecutionResult::Panic,
                _ => ScriptExecutionResult::GenericFailure(word(c).max(3)),
            };
            Receipt::script_result(r, word(c))
        }
        _ => match c.below(3) {
            0 => Receipt::message_out_from_tx_output(
                &id32(c, s).into(),
                word(c),
                id32(c, s).into(),
                id32(c, s).into(),
                word(c),
                blob(c, s),
            ),
            1 => Receipt::message_out(
                id32(c, s).into(),
                id32(c, s).into(),
                id32(c, s).into(),
                word(c),
                id32(c, s).into(),
                id32(c, s).into(),
                blob(c, s),
            ),
            _ => Receipt::message_out_with_len(
                id32(c, s).into(),
                id32(c, s).into(),
                id32(c, s).into(),
                word(c),
                id32(c, s).into(),
                word(c),
                id32(c, s).into(),
                blob(c, s),
            ),
        },
    }
}
