//! Every type with a wire form, behind one face. `real_*` calls run the code under test.
use crate::core::Ctx;
use crate::gen::*;
use crate::model::*;
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::io;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Tx,
    Script,
    Create,
    Mint,
    Input,
    Output,
    Witness,
    Slot,
    Utxo,
    Ptr,
    Receipt,
}
pub const TYPES: [Ty; 11] = [
    Ty::Tx,
    Ty::Script,
    Ty::Create,
    Ty::Mint,
    Ty::Input,
    Ty::Output,
    Ty::Witness,
    Ty::Slot,
    Ty::Utxo,
    Ty::Ptr,
    Ty::Receipt,
];
#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    Tx(Transaction),
    Script(Script),
    Create(Create),
    Mint(Mint),
    Input(Input),
    Output(Output),
    Witness(Witness),
    Slot(StorageSlot),
    Utxo(UtxoId),
    Ptr(TxPointer),
    Receipt(Receipt),
}
macro_rules! on {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Item::Tx($x) => $e,
            Item::Script($x) => $e,
            Item::Create($x) => $e,
            Item::Mint($x) => $e,
            Item::Input($x) => $e,
            Item::Output($x) => $e,
            Item::Witness($x) => $e,
            Item::Slot($x) => $e,
            Item::Utxo($x) => $e,
            Item::Ptr($x) => $e,
            Item::Receipt($x) => $e,
        }
    };
}
/// a wire-form error, reduced
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WErr {
    Eof,
    Other,
}
fn werr(e: io::Error) -> WErr {
    if e.kind() == io::ErrorKind::UnexpectedEof {
        WErr::Eof
    } else {
        WErr::Other
    }
}
impl Item {
    pub fn ty(&self) -> Ty {
        match self {
            Item::Tx(_) => Ty::Tx,
            Item::Script(_) => Ty::Script,
            Item::Create(_) => Ty::Create,
            Item::Mint(_) => Ty::Mint,
            Item::Input(_) => Ty::Input,
            Item::Output(_) => Ty::Output,
            Item::Witness(_) => Ty::Witness,
            Item::Slot(_) => Ty::Slot,
            Item::Utxo(_) => Ty::Utxo,
            Item::Ptr(_) => Ty::Ptr,
            Item::Receipt(_) => Ty::Receipt,
        }
    }
    pub fn blank(t: Ty) -> Item {
        match t {
            Ty::Tx => Item::Tx(Default::default()),
            Ty::Script => Item::Script(Default::default()),
            Ty::Create => Item::Create(Default::default()),
            Ty::Mint => Item::Mint(Default::default()),
            Ty::Input => Item::Input(Default::default()),
            Ty::Output => Item::Output(Default::default()),
            Ty::Witness => Item::Witness(Default::default()),
            Ty::Slot => Item::Slot(StorageSlot::default()),
            Ty::Utxo => Item::Utxo(UtxoId::default()),
            Ty::Ptr => Item::Ptr(TxPointer::default()),
            Ty::Receipt => Item::Receipt(Receipt::ret(Default::default(), 0, 0, 0)),
        }
    }
    pub fn of_model(t: Ty, m: &M) -> Item {
        match t {
            Ty::Script => Item::Script(build_script(m)),
            Ty::Create => Item::Create(build_create(m)),
            Ty::Mint => Item::Mint(build_mint(m)),
            _ => Item::Tx(build(m)),
        }
    }
    // ---- code under test
    pub fn size(&self) -> usize {
        on!(self, x => x.serialized_size())
    }
    pub fn encode(&mut self, b: &mut [u8]) -> Result<usize, WErr> {
        on!(self, x => io::Read::read(x, b)).map_err(werr)
    }
    pub fn decode(&mut self, b: &[u8]) -> Result<usize, WErr> {
        on!(self, x => io::Write::write(x, b)).map_err(werr)
    }
    pub fn to_bytes(&mut self) -> Vec<u8> {
        on!(self, x => x.to_bytes())
    }
    pub fn from_bytes(t: Ty, b: &[u8]) -> Result<Item, WErr> {
        Ok(match t {
            Ty::Tx => Item::Tx(Transaction::from_bytes(b).map_err(werr)?),
            Ty::Script => Item::Script(Script::from_bytes(b).map_err(werr)?),
            Ty::Create => Item::Create(Create::from_bytes(b).map_err(werr)?),
            Ty::Mint => Item::Mint(Mint::from_bytes(b).map_err(werr)?),
            Ty::Input => Item::Input(Input::from_bytes(b).map_err(werr)?),
            Ty::Output => Item::Output(Output::from_bytes(b).map_err(werr)?),
            Ty::Witness => Item::Witness(Witness::from_bytes(b).map_err(werr)?),
            Ty::Slot => Item::Slot(StorageSlot::from_bytes(b).map_err(werr)?),
            Ty::Utxo => Item::Utxo(UtxoId::from_bytes(b).map_err(werr)?),
            Ty::Ptr => Item::Ptr(TxPointer::from_bytes(b).map_err(werr)?),
            Ty::Receipt => Item::Receipt(Receipt::from_bytes(b).map_err(werr)?),
        })
    }
    pub fn try_from_bytes(b: &[u8]) -> Result<(usize, Item), WErr> {
        Transaction::try_from_bytes(b).map(|(n, t)| (n, Item::Tx(t))).map_err(werr)
    }
    pub fn flush(&mut self) -> Result<(), WErr> {
        on!(self, x => io::Write::flush(x)).map_err(werr)
    }
    pub fn precompute(&mut self) {
        match self {
            Item::Tx(t) => t.precompute(),
            Item::Script(t) => t.precompute(),
            Item::Create(t) => t.precompute(),
            Item::Mint(t) => t.precompute(),
            _ => {}
        }
    }
    pub fn is_tx(&self) -> bool {
        matches!(self, Item::Tx(_) | Item::Script(_) | Item::Create(_) | Item::Mint(_))
    }
    pub fn is_computed(&self) -> bool {
        match self {
            Item::Tx(t) => t.is_computed(),
            Item::Script(t) => t.is_computed(),
            Item::Create(t) => t.is_computed(),
            Item::Mint(t) => t.is_computed(),
            _ => false,
        }
    }
    pub fn id(&self) -> Option<B32> {
        Some(match self {
            Item::Tx(t) => *t.id(),
            Item::Script(t) => *t.id(),
            Item::Create(t) => *t.id(),
            Item::Mint(t) => *t.id(),
            _ => return None,
        })
    }
    // ---- model
    pub fn snap(&self) -> Option<M> {
        Some(match self {
            Item::Tx(t) => snap(t),
            Item::Script(t) => snap_script(t),
            Item::Create(t) => snap_create(t),
            Item::Mint(t) => snap_mint(t),
            _ => return None,
        })
    }
    pub fn model(&self) -> Enc {
        let mut e = Enc::default();
        match self {
            Item::Input(x) => enc_input(&mut e, 0, x),
            Item::Output(x) => enc_output(&mut e, 0, x),
            Item::Witness(x) => enc_witness(&mut e, 0, x.as_ref()),
            Item::Slot(x) => {
                e.a("slot.key", x.key().as_ref());
                e.a("slot.value", x.value().as_ref());
            }
            Item::Utxo(x) => e.utxo(x),
            Item::Ptr(x) => e.ptr("ptr", x.block_height(), x.tx_index()),
            Item::Receipt(r) => return enc_receipt(r),
            _ => return enc(&self.snap().unwrap_or_else(|| M::empty(Kind::Script))),
        }
        e
    }
    pub fn strict(&self) -> Vec<u8> {
        match self {
            Item::Input(x) => strict_input(x),
            Item::Receipt(r) => strict_receipt(r),
            _ => match self.snap() {
                Some(m) => strict(&m),
                None => self.model().b,
            },
        }
    }
    pub fn describe(&self) -> String {
        match self.snap() {
            Some(m) => format!("{:?} {}", self.ty(), describe(&m)),
            None => {
                let mut s = format!("{self:?}");
                if s.len() > 300 {
                    let mut k = 300;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push('…');
                }
                s
            }
        }
    }
    pub fn shape(&self) -> u64 {
        let b = match self.snap() {
            Some(m) => return crate::core::mix(self.ty() as u64, shape(&m)),
            None => self.strict(),
        };
        crate::core::mix(self.ty() as u64 * 4096 + b.len() as u64, b.get(7).copied().unwrap_or(0) as u64)
    }
}
/// What the layout says these bytes are.
pub fn model_decode(t: Ty, b: &[u8]) -> Result<(Item, usize), DecErr> {
    let mut d = Dec::new(b);
    let it = match t {
        Ty::Tx | Ty::Script | Ty::Create | Ty::Mint => {
            let m = d.tx()?;
            match (t, m.kind) {
                (Ty::Tx, _) | (Ty::Script, Kind::Script) | (Ty::Create, Kind::Create) | (Ty::Mint, Kind::Mint) => {}
                _ => return Err(DecErr::Tag),
            }
            Item::of_model(t, &m)
        }
        Ty::Input => Item::Input(d.input()?),
        Ty::Output => Item::Output(d.output()?),
        Ty::Witness => Item::Witness(d.witness()?.into()),
        Ty::Slot => Item::Slot(StorageSlot::new(d.b32()?.into(), d.b32()?.into())),
        Ty::Utxo => Item::Utxo(d.utxo()?),
        Ty::Ptr => Item::Ptr(d.ptr()?),
        Ty::Receipt => {
            let (r, n) = dec_receipt(b)?;
            return Ok((Item::Receipt(r), n));
        }
    };
    Ok((it, d.p))
}
pub fn item(c: &mut Ctx, s: &Swarm, t: Ty) -> Item {
    match t {
        Ty::Tx => {
            let m = any_tx(c, s);
            Item::of_model(t, &m)
        }
        Ty::Script | Ty::Create | Ty::Mint => {
            let k = match t {
                Ty::Script => Kind::Script,
                Ty::Create => Kind::Create,
                _ => Kind::Mint,
            };
            let m = any_tx_kind(c, s, k);
            Item::of_model(t, &m)
        }
        Ty::Input => Item::Input(input(c, s)),
        Ty::Output => Item::Output(output(c, s)),
        Ty::Witness => Item::Witness(blob(c, s).into()),
        Ty::Slot => Item::Slot(StorageSlot::new(id32(c, s).into(), id32(c, s).into())),
        Ty::Utxo => Item::Utxo(utxo(c, s)),
        Ty::Ptr => Item::Ptr(ptr(c)),
        Ty::Receipt => Item::Receipt(receipt(c, s)),
    }
}
/// transactions get half of the weight
pub fn any_ty(c: &mut Ctx) -> Ty {
    *c.pick(&[
        Ty::Tx,
        Ty::Tx,
        Ty::Tx,
        Ty::Script,
        Ty::Create,
        Ty::Mint,
        Ty::Input,
        Ty::Output,
        Ty::Witness,
        Ty::Slot,
        Ty::Utxo,
        Ty::Ptr,
    ])
}
