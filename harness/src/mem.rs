//! Instrumented external memory, byte buffers and registries: the observation points.
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, PortableRegistry, Type};
use std::any::TypeId;
use std::sync::Arc;
use substrate_parser::error::{RegistryError, RegistryInternalError};
use substrate_parser::traits::{
    AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams, ResolveType, SignedExtensionMetadata,
    SpecNameVersion,
};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Fault {
    None,
    /// Exactly the access with this number fails.
    At(u64),
    /// All accesses from this number on fail.
    From(u64),
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Acc {
    Read { buf: u32, pos: usize, len: usize, total: usize, ok: bool },
    Resolve { id: u32, ok: bool },
}

/// Logical-step budget exceeded: unwinds out of the code under test.
pub struct BudgetExceeded(pub u64);

#[derive(Debug)]
pub struct Mem {
    pub n: u64,
    pub reads: u64,
    pub bytes: u64,
    pub resolves: u64,
    pub log: Option<Vec<Acc>>,
    pub budget: u64,
    pub fault: Fault,
    pub fault_hits: u64,
    /// Order of accesses of several threads.
    pub shared: Option<(Arc<std::sync::Mutex<Vec<u8>>>, u8)>,
    pub yield_every: u64,
    /// How reads over the end are refused: 0 as slices do, 1 always as out of range, 2 always as data too short.
    pub refuse: u8,
}

impl Mem {
    pub fn new() -> Self {
        Mem {
            n: 0,
            reads: 0,
            bytes: 0,
            resolves: 0,
            log: None,
            budget: u64::MAX,
            fault: Fault::None,
            fault_hits: 0,
            shared: None,
            yield_every: 0,
            refuse: 0,
        }
    }
    pub fn logging() -> Self {
        let mut m = Self::new();
        m.log = Some(Vec::new());
        m
    }
    pub fn with_budget(budget: u64) -> Self {
        let mut m = Self::new();
        m.budget = budget;
        m
    }
    pub fn with_fault(fault: Fault) -> Self {
        let mut m = Self::new();
        m.fault = fault;
        m
    }
    fn step(&mut self) -> Result<(), MemErr> {
        let k = self.n;
        self.n += 1;
        if let Some((o, k)) = &self.shared {
            if self.yield_every > 0 && self.n % self.yield_every == 0 {
                std::thread::yield_now();
            }
            o.lock().unwrap().push(*k);
        }
        if self.n > self.budget {
            std::panic::panic_any(BudgetExceeded(self.n));
        }
        let hit = match self.fault {
            Fault::None => false,
            Fault::At(a) => a == k,
            Fault::From(a) => k >= a,
        };
        if hit {
            self.fault_hits += 1;
            Err(MemErr(k))
        } else {
            Ok(())
        }
    }
}

impl PartialEq for Mem {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

#[derive(Debug, Eq, PartialEq, Clone, Copy)]
pub struct MemErr(pub u64);
impl std::fmt::Display for MemErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault at access {}", self.0)
    }
}
impl std::error::Error for MemErr {}

impl ExternalMemory for Mem {
    type ExternalMemoryError = MemErr;
}

fn checked(total: usize, position: usize, slice_len: usize) -> Result<(), (bool, usize)> {
    if total < position {
        return Err((true, 0));
    }
    match position.checked_add(slice_len) {
        Some(end) if end <= total => Ok(()),
        _ => Err((false, slice_len)),
    }
}

/// Buffer that copies what is read into a fresh `Vec`.
#[derive(Clone, Debug)]
pub struct LogBuf {
    pub data: Arc<Vec<u8>>,
    pub len: usize,
    pub id: u32,
}

impl LogBuf {
    pub fn new(data: &[u8], id: u32) -> Self {
        LogBuf { data: Arc::new(data.to_vec()), len: data.len(), id }
    }
}

impl AddressableBuffer<Mem> for LogBuf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, slice_len: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        m.reads += 1;
        let c = checked(self.len, position, slice_len);
        if let Some(l) = m.log.as_mut() {
            l.push(Acc::Read { buf: self.id, pos: position, len: slice_len, total: self.len, ok: c.is_ok() });
        }
        m.step().map_err(BufferError::External)?;
        match c {
            Err((true, _)) => Err(BufferError::OutOfRange { position, total_length: self.len }),
            Err((false, minimal_length)) => Err(BufferError::DataTooShort { position, minimal_length }),
            Ok(()) => {
                m.bytes += slice_len as u64;
                Ok(self.data[position..position + slice_len].to_vec())
            }
        }
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: new_len });
        }
        // id of a limited view differs, so that accesses can be told apart
        Ok(LogBuf { data: self.data.clone(), len: new_len, id: self.id + 1000 })
    }
}

/// Buffer stored as separate pages of odd size at unrelated addresses; limited views keep the pages.
#[derive(Clone, Debug)]
pub struct PagedBuf {
    pages: Arc<Vec<Box<[u8]>>>,
    page: usize,
    len: usize,
}

/// Read buffer of the paged storage: small reads inline, large on the heap, with slack around.
pub enum PageRead {
    Small([u8; 40], usize),
    Large(Box<[u8]>, usize, usize),
}
impl AsRef<[u8]> for PageRead {
    fn as_ref(&self) -> &[u8] {
        match self {
            PageRead::Small(a, n) => &a[3..3 + n],
            PageRead::Large(b, s, e) => &b[*s..*e],
        }
    }
}

impl PagedBuf {
    pub fn new(data: &[u8], page: usize) -> Self {
        let pages = data.chunks(page).map(|c| c.to_vec().into_boxed_slice()).collect::<Vec<_>>();
        PagedBuf { pages: Arc::new(pages), page, len: data.len() }
    }
}

impl AddressableBuffer<Mem> for PagedBuf {
    type ReadBuffer = PageRead;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, slice_len: usize) -> Result<PageRead, BufferError<Mem>> {
        m.reads += 1;
        m.step().map_err(BufferError::External)?;
        match checked(self.len, position, slice_len) {
            Err(_) if m.refuse == 1 => return Err(BufferError::OutOfRange { position, total_length: self.len }),
            Err(_) if m.refuse == 2 => return Err(BufferError::DataTooShort { position, minimal_length: slice_len }),
            Err((true, _)) => return Err(BufferError::OutOfRange { position, total_length: self.len }),
            Err((false, minimal_length)) => return Err(BufferError::DataTooShort { position, minimal_length }),
            Ok(()) => {}
        }
        m.bytes += slice_len as u64;
        let mut v = vec![0xEEu8; 3];
        let mut p = position;
        let end = position + slice_len;
        while p < end {
            let pg = p / self.page;
            let o = p % self.page;
            let take = (self.page - o).min(end - p);
            v.extend_from_slice(&self.pages[pg][o..o + take]);
            p += take;
        }
        if slice_len <= 32 {
            let mut a = [0xDDu8; 40];
            a[3..3 + slice_len].copy_from_slice(&v[3..]);
            Ok(PageRead::Small(a, slice_len))
        } else {
            v.extend_from_slice(&[0xCC; 5]);
            let e = 3 + slice_len;
            Ok(PageRead::Large(v.into_boxed_slice(), 3, e))
        }
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: new_len });
        }
        Ok(PagedBuf { pages: self.pages.clone(), page: self.page, len: new_len })
    }
}

/// In-memory registry, shared.
#[derive(Clone, Debug)]
pub struct Reg(pub Arc<PortableRegistry>);

impl<E: ExternalMemory> ResolveType<E> for Reg {
    fn resolve_ty(&self, id: u32, _m: &mut E) -> Result<Type<PortableForm>, RegistryError<E>> {
        match self.0.types.get(id as usize) {
            Some(t) => Ok(t.ty.clone()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}

/// Registry living in the external memory: every lookup is an access (logged, faultable).
#[derive(Clone, Debug)]
pub struct ExtReg(pub Arc<PortableRegistry>);

impl ResolveType<Mem> for ExtReg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<Type<PortableForm>, RegistryError<Mem>> {
        m.resolves += 1;
        let t = self.0.types.get(id as usize);
        if let Some(l) = m.log.as_mut() {
            l.push(Acc::Resolve { id, ok: t.is_some() });
        }
        m.step().map_err(RegistryError::External)?;
        match t {
            Some(t) => Ok(t.ty.clone()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}

/// Registry kept as encoded bytes per type, decoded on each lookup.
#[derive(Clone, Debug)]
pub struct EncReg(pub Arc<Vec<Vec<u8>>>);
impl EncReg {
    pub fn new(r: &PortableRegistry) -> Self {
        use parity_scale_codec::Encode;
        EncReg(Arc::new(r.types.iter().map(|t| t.ty.encode()).collect()))
    }
}
impl ResolveType<Mem> for EncReg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<Type<PortableForm>, RegistryError<Mem>> {
        use parity_scale_codec::Decode;
        m.resolves += 1;
        m.step().map_err(RegistryError::External)?;
        match self.0.get(id as usize) {
            Some(b) => Ok(Type::<PortableForm>::decode(&mut &b[..]).expect("harness: encoded type")),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}

/// Metadata of the harness: any combination of parts.
#[derive(Clone, Debug)]
pub struct Meta {
    pub reg: Arc<PortableRegistry>,
    pub spec: Result<SpecNameVersion, String>,
    pub params: ExtrinsicTypeParams,
    pub version: u8,
    pub exts: Vec<SignedExtensionMetadata>,
}
impl PartialEq for Meta {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

pub fn sym(id: u32) -> UntrackedSymbol<TypeId> {
    UntrackedSymbol::from(id)
}

impl Meta {
    pub fn bare(reg: Arc<PortableRegistry>) -> Self {
        Meta {
            reg,
            spec: Err("no spec".into()),
            params: ExtrinsicTypeParams { address_ty: sym(0), call_ty: sym(0), signature_ty: sym(0), extra_ty: sym(0) },
            version: 4,
            exts: Vec::new(),
        }
    }
}

macro_rules! impl_meta {
    ($reg:ident, $ty:ty, [$($g:tt)*], $e:ty, $get:expr, $mk:expr) => {
        impl $($g)* AsMetadata<$e> for $ty {
            type TypeRegistry = $reg;
            type MetaStructureError = String;
            fn types(&self) -> $reg { $mk(self) }
            fn spec_name_version(&self) -> Result<SpecNameVersion, String> { $get(self).spec.clone() }
            fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, String> { Ok($get(self).params.call_ty) }
            fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, String> { Ok($get(self).exts.clone()) }
        }
        impl $($g)* AsCompleteMetadata<$e> for $ty {
            fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, String> { Ok($get(self).params.clone()) }
            fn extrinsic_version(&self) -> Result<u8, String> { Ok($get(self).version) }
        }
    };
}

impl_meta!(Reg, Meta, [<E: ExternalMemory>], E, |m: &'_ Meta| -> Meta { m.clone() }, |m: &Meta| Reg(m.reg.clone()));

/// Same metadata, registry in external memory.
#[derive(Clone, Debug)]
pub struct ExtMeta(pub Meta);
impl PartialEq for ExtMeta {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl_meta!(ExtReg, ExtMeta, [], Mem, |m: &'_ ExtMeta| -> Meta { m.0.clone() }, |m: &ExtMeta| ExtReg(m.0.reg.clone()));

/// Same metadata, registry encoded.
#[derive(Clone, Debug)]
pub struct EncMeta(pub Meta, pub EncReg);
impl PartialEq for EncMeta {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl_meta!(EncReg, EncMeta, [], Mem, |m: &'_ EncMeta| -> Meta { m.0.clone() }, |m: &EncMeta| m.1.clone());
