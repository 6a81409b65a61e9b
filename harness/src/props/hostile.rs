//! Hostile data: C03 (nothing panics or aborts), C04 (memory and work bounded by the data present).
use crate::alloc::measure;
use crate::cardmodel as cm;
use crate::common::*;
use crate::gen::{self, comp, enm, fld, mk, put_compact, seq, tup, var, Builder};
use crate::mem::{sym, ExtMeta, LogBuf, Mem, Meta, Reg};
use crate::model::steps_total;
use crate::op::{self, Case, Op};
use crate::props::storage::{process_case, storage_world, HASHERS};
use crate::props::tx::random_meta;
use crate::rng::Rng;
use crate::run::{guarded, hash_bytes, known_finding, mix, Local, Pan, Runner, Spec};
use crate::txgen::any_tx_world;
use frame_metadata::v14::StorageEntryType;
use scale_info::TypeDef;
use substrate_parser::compacts::{find_compact, get_compact};
use substrate_parser::printing_balance::AsBalance;
use substrate_parser::ShortSpecs;

const NAMES: [&str; 5] = ["westend", "statemint", "", "polkadot", "n\u{e9}\u{1F600}"];

fn indent(r: &mut Rng) -> u32 {
    r.pick(&[0u32, 0, 1, 2, 5, 17, 100])
}

/// Run an operation and show what comes out of it in all ways.
fn through(c: &Case, r: &mut Rng, st: &mut Local, case: u64) {
    if op::model_ok(c).is_none() {
        st.skip();
        return;
    }
    let specs = cm::short_specs(r);
    let (ind, name) = (indent(r), r.pick(&NAMES));
    let out = guarded(|| {
        let o = op::run_plain(c);
        match o {
            Ok(v) => {
                let d = format!("{v:?}").len();
                let n: usize = op::cards(v, ind, &specs, name).iter().map(|s| s.len()).sum();
                Ok(n + d)
            }
            Err(e) => Err(e.0.len() + e.1.len()),
        }
    });
    match out {
        Ok(Ok(n)) => {
            st.class(&format!("{}: shown", c.op.name()));
            st.class_n("bytes of text", n as u64);
        }
        Ok(Err(n)) => {
            st.class(&format!("{}: error", c.op.name()));
            st.class_n("bytes of error text", n as u64);
        }
        Err(p) => fail(p, st, &format!("{}, shown with indent {ind}, {specs:?}, name {name:?}", op::say(c))),
    }
    st.eval(mix(super::types::key(c.op.name().len() as u32, &c.data, case), c.how.len() as u64));
    st.sample(|| format!("{} ({}) {} bytes", c.op.name(), c.how, c.data.len()));
}

fn fail(p: Pan, st: &mut Local, about: &str) {
    match p {
        Pan::Code(e) => st.fail(format!("{e}: {about}")),
        Pan::Budget(n) => st.fail(format!("more than {n} steps: {about}")),
        Pan::Harness(e) => panic!("{e}"),
    }
}

/// More damage.
pub fn worse(c: &mut Case, r: &mut Rng) {
    for _ in 0..r.below(4) {
        if let (Op::Store(_, v), true) = (&mut c.op, r.chance(1, 2)) {
            *v = mutate(r, v).0;
        } else {
            c.data = mutate(r, &c.data).0;
        }
    }
    if let Op::At(_, p) = &mut c.op {
        if r.chance(1, 10) {
            *p = c.data.len() + r.idx(4);
        }
    }
}

/// Bytes without any plan, against everything a metadata offers.
fn blind(r: &mut Rng, real: bool) -> Case {
    let t = if real { any_tx_world(r, 100) } else { any_tx_world(r, 0) };
    let meta = t.meta.clone();
    let n = match r.below(4) {
        0 => r.idx(4),
        1 => r.idx(80),
        2 => r.idx(200),
        _ => r.idx(20),
    };
    let mut data = match r.below(6) {
        0 => vec![r.byte(); n],
        1 => (0..n).map(|_| r.pick(&[0u8, 1, 2, 3, 4, 8, 0xff])).collect(),
        2 => {
            // compacts in a row
            let mut o = vec![];
            while o.len() < n {
                let b = r.pick(&[8, 16, 32, 64, 128]);
                let v = r.uint(b);
                put_compact(&mut o, v);
            }
            o
        }
        _ => r.bytes(n),
    };
    let some_type = |r: &mut Rng| r.below(meta.reg.types.len() as u64) as u32;
    let op = match r.below(9) {
        0..=2 => Op::All(some_type(r)),
        3 => Op::At(some_type(r), r.idx(n + 3)),
        4 => Op::Marked(t_genesis(r)),
        5 => Op::Unmarked(t_genesis(r)),
        6 => Op::CallOnly,
        7 => Op::ExtsOnly(t_genesis(r)),
        _ => Op::Xt,
    };
    if matches!(op, Op::Marked(_) | Op::CallOnly | Op::ExtsOnly(_)) && r.chance(3, 4) {
        let mut o = vec![];
        put_compact(&mut o, r.below(n as u64 + 1) as u128);
        o.extend(data);
        data = o;
    }
    if matches!(op, Op::Xt) && r.chance(3, 4) {
        let mut x = vec![r.pick(&[0x84u8, 0x04, 0x85, 0x05, 0x00, 0xff])];
        x.extend(data);
        let mut o = vec![];
        put_compact(&mut o, x.len() as u128);
        o.extend(x);
        data = o;
    }
    Case { meta, op, data, how: "blind".into() }
}
fn t_genesis(r: &mut Rng) -> Option<primitive_types::H256> {
    if r.chance(1, 2) {
        Some(primitive_types::H256::repeat_byte(r.byte()))
    } else {
        None
    }
}

/// A recursive type, and data nested to a number of levels in it.
pub fn deep(kind: usize, levels: usize) -> (Meta, u32, Vec<u8>) {
    let mut b = Builder::new();
    let me = b.types.len() as u32;
    let mut data = vec![];
    match kind {
        0 => {
            b.add(mk(&["E"], enm(vec![var("A", 0, vec![], &[]), var("B", 1, vec![fld(None, me, Some("Box<E>"), &[])], &[])]), &[]));
            data = vec![1; levels];
            data.push(0);
        }
        1 => {
            b.add(mk(&["Tree"], comp(vec![fld(None, me + 1, None, &[])]), &["doc"]));
            b.add(mk(&[], seq(me), &[]));
            data = vec![4; levels];
            data.push(0);
        }
        2 => {
            b.add(mk(&["L"], comp(vec![fld(Some("v"), gen::U8, None, &[]), fld(Some("next"), me + 1, None, &[])]), &[]));
            b.add(mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, me, None, &[])], &[])]), &[]));
            for _ in 0..levels {
                data.extend([7, 1]);
            }
            data.extend([7, 0]);
        }
        _ => {
            b.add(mk(&["rt", "RuntimeCall"], enm(vec![var("Utility", 0, vec![fld(None, me + 1, None, &[])], &[])]), &[]));
            b.add(mk(&["pallet_utility", "pallet", "Call"], enm(vec![var("batch", 0, vec![fld(Some("calls"), me + 2, None, &[])], &[]), var("none", 1, vec![], &[])]), &[]));
            b.add(mk(&[], seq(me), &[]));
            for _ in 0..levels {
                data.extend([0, 0, 4]);
            }
            data.extend([0, 1]);
        }
    }
    (Meta::bare(b.finish().into()), me, data)
}
pub const DEEP: [&str; 4] = ["enum E {A, B(Box<E>)}", "Tree(Vec<Tree>)", "L {v: u8, next: Option<L>}", "calls nested in batches"];

/// `vh probe deep KIND LEVELS`: ends with status 0 when nothing happens to the process.
pub fn probe(args: &[String]) -> i32 {
    let (k, n): (usize, usize) = (args[1].parse().unwrap_or(0), args[2].parse().unwrap_or(0));
    let h = std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            let (meta, id, data) = deep(k, n);
            let x = real_all(&meta.reg, id, &data);
            match x {
                Ok(e) => {
                    let s = ShortSpecs { base58prefix: 42, decimals: 10, unit: "U".into() };
                    let c = e.card(0, true, &s, "n");
                    println!("{} cards", c.len());
                    drop(e.clone());
                    true
                }
                Err(e) => {
                    println!("{e:?}");
                    false
                }
            }
        })
        .expect("thread");
    match h.join() {
        Ok(true) => 0,
        _ => 1,
    }
}
fn run_probe(k: usize, n: usize) -> Result<(), String> {
    let exe = std::env::current_exe().expect("own path");
    let o = std::process::Command::new(exe).args(["probe", "deep", &k.to_string(), &n.to_string()]).output().expect("start probe");
    match o.status.code() {
        Some(0) => Ok(()),
        _ => Err(format!("{} {}", o.status, cut(String::from_utf8_lossy(&o.stdout).into_owned(), 200))),
    }
}

/// What is refused and what is not, one way or another, but never a panic.
fn c03(run: &Runner) {
    run.stage("operations", run.cfg.n(120_000), |r, c, st| {
        let Some(mut x) = op::gen(r, if c % 25 == 0 { 100 } else { 0 }, 15) else { return };
        worse(&mut x, r);
        through(&x, r, st, c);
    });
    run.stage("real metadata", run.cfg.n(4_000), |r, c, st| {
        let Some(mut x) = op::gen(r, 100, 30) else { return };
        worse(&mut x, r);
        through(&x, r, st, c);
    });
    run.stage("blind", run.cfg.n(60_000), |r, c, st| {
        let x = blind(r, c % 12 == 0);
        through(&x, r, st, c);
    });
    // every way to be cut short
    run.stage("cut", run.cfg.n(1_500), |r, c, st| {
        let Some(x) = op::gen(r, 0, 100) else { return };
        for k in 0..x.data.len().min(80) {
            let mut y = x.clone();
            y.data.truncate(k);
            through(&y, r, st, c);
        }
    });
    // every byte changed to every value
    run.stage("each byte", run.cfg.n(250), |r, c, st| {
        let Some(x) = op::gen(r, 0, 100) else { return };
        let t0 = std::time::Instant::now();
        for k in 0..x.data.len().min(12) {
            // a value with much text to show is not worth minutes
            if t0.elapsed().as_secs() >= 4 {
                st.class("each byte: not all places, too much text");
                break;
            }
            for v in 0..=255u8 {
                let mut y = x.clone();
                y.data[k] = v;
                through(&y, r, st, c);
            }
        }
    });
    run.stage("texts", run.cfg.n(32_000), |r, c, st| {
        let e = if c % 16 == 0 { cm::long_item(r) } else { cm::extended(r, 0) };
        let specs = cm::short_specs(r);
        let (ind, name, money) = (indent(r), r.pick(&NAMES), r.chance(1, 2));
        let about = format!("{}, indent {ind}, {specs:?}", cut(format!("{e:?}"), 3000));
        let o = guarded(|| {
            let mut n = e.show(ind, money, &specs, name).len() + e.show_with_docs(ind, money, &specs, name).len();
            for c in e.card(ind, money, &specs, name) {
                n += c.show().len() + c.show_with_docs().len();
            }
            n
        });
        match o {
            Ok(n) => st.class_n("bytes of text", n as u64),
            Err(p) => fail(p, st, &about),
        }
        st.eval(hash_bytes(about.as_bytes()));
    });
    run.stage("balances", run.cfg.n(20_000), |r, _, st| {
        for _ in 0..20 {
            let bits = r.pick(&[8, 16, 32, 64, 128]);
            let v = if r.chance(1, 6) { u128::MAX >> (128 - bits) } else { r.uint(bits) };
            let (d, u) = (r.byte(), r.pick(&["DOT", "", "k", "\u{b5}X"]));
            let o = guarded(|| match bits {
                8 => u8::convert_balance_pretty(v as u8, d, u).number,
                16 => u16::convert_balance_pretty(v as u16, d, u).number,
                32 => u32::convert_balance_pretty(v as u32, d, u).number,
                64 => u64::convert_balance_pretty(v as u64, d, u).number,
                _ => u128::convert_balance_pretty(v, d, u).number,
            });
            if let Err(p) = o {
                fail(p, st, &format!("balance {v} of {bits} bits, {d} decimals"))
            }
            st.eval(mix(hash_bytes(&v.to_le_bytes()), d as u64 + bits as u64 * 256));
        }
    });
    run.stage("compacts", run.cfg.n(20_000), |r, _, st| {
        let n = r.idx(24);
        let d = r.bytes(n);
        for _ in 0..10 {
            let at = r.idx(n + 3);
            let w = r.idx(5);
            let o = guarded(|| {
                let s = &d[..];
                macro_rules! both {
                    ($t:ty) => {{
                        let f = find_compact::<$t, &[u8], ()>(&s, &mut (), at).is_ok();
                        let g = get_compact::<$t, &[u8], ()>(&s, &mut (), &mut at.clone()).is_ok();
                        (f, g)
                    }};
                }
                match w {
                    0 => both!(u8),
                    1 => both!(u16),
                    2 => both!(u32),
                    3 => both!(u64),
                    _ => both!(u128),
                }
            });
            if let Err(p) = o {
                fail(p, st, &format!("compact of width {w} at {at} of {}", hexs(&d)))
            }
            st.eval(mix(hash_bytes(&d), (at * 8 + w) as u64));
        }
    });
    run.stage("map keys", run.cfg.n(20_000), |r, _, st| {
        let s = storage_world(r);
        let key = match &s.e.ty {
            StorageEntryType::Map { key, .. } if r.chance(2, 3) => key.id,
            _ => s.w.target(r),
        };
        for _ in 0..6 {
            let k = r.idx(4);
            let hs: Vec<_> = (0..k).map(|_| r.pick(&HASHERS)).collect();
            let n = r.idx(90);
            let d = r.bytes(n);
            let from = r.idx(n + 2);
            if matches!(crate::model2::map_key(&s.w.meta(), &d, from, &hs, key), crate::model2::O::Skip) {
                st.skip();
                continue;
            }
            let o = guarded(|| process_case(&hs, key, &d, from, &Reg(s.w.reg.clone())));
            match o {
                Ok(ok) => st.class(if ok { "map key: parsed" } else { "map key: error" }),
                Err(p) => fail(p, st, &format!("map key of {} with {hs:?} from {from} in {}", show_ty(&s.w.reg, key), hexs(&d))),
            }
            st.eval(mix(hash_bytes(&d), mix(from as u64, k as u64)));
        }
    });
    super::vm::blocks(run, super::vm::Other::W32, 40, 2000, 60, false, 1);
    super::vm::blocks(run, super::vm::Other::Miri("x86_64-unknown-linux-gnu"), 8, 1000, 12, false, 1);
    super::vm::blocks(run, super::vm::Other::Miri("i686-unknown-linux-gnu"), 8, 1000, 12, false, 1);
    if !run.cfg.quick() {
        super::vm::blocks(run, super::vm::Other::San("VERIF_ASAN", "AddressSanitizer"), 40, 4000, 60, false, 1);
        super::vm::blocks(run, super::vm::Other::San("VERIF_MSAN", "MemorySanitizer"), 40, 4000, 60, false, 1);
    }
    // nesting
    let last = DEEP.len() as u64;
    run.stage("nesting", last * 3, |_, c, st| {
        let (k, n) = ((c % last) as usize, [10, 200, 1000][(c / last) as usize]);
        if let Err(e) = run_probe(k, n) {
            st.fail(format!("{n} levels of {}: {e}", DEEP[k]))
        }
        st.class("nesting probes");
        st.eval(mix(c, 77));
    });
    run.stage("deepest", 1, |_, _, st| {
        if let Err(e) = run_probe(0, 100_000) {
            if known_finding("C03", "deep-nesting") {
                run.known(format!("100000 levels of {}: {e}", DEEP[0]))
            } else {
                st.fail(format!("100000 levels of {}: {e}", DEEP[0]))
            }
        }
        st.class("nesting probes");
        st.eval(78);
    });
}

// ------------------------------------------------------------------------------------------ C04

/// Least number of bytes a value of each type takes.
pub fn least(reg: &scale_info::PortableRegistry) -> Vec<u64> {
    use crate::model::{special, Sp};
    let n = reg.types.len();
    let mut v = vec![0u64; n];
    // grows from nothing; types that recurse stay low
    for _ in 0..60 {
        for i in 0..n {
            let g = |id: u32| v.get(id as usize).copied().unwrap_or(0);
            let t = &reg.types[i].ty;
            let s = special(t);
            if !matches!(s, Sp::None | Sp::Unchecked | Sp::Call | Sp::Event | Sp::MultiSig) {
                v[i] = 1;
                continue;
            }
            v[i] = match &t.type_def {
                TypeDef::Composite(c) => c.fields.iter().map(|f| g(f.ty.id)).sum::<u64>().min(1000),
                TypeDef::Variant(v) => (!v.variants.is_empty()) as u64,
                TypeDef::Sequence(_) | TypeDef::Primitive(_) | TypeDef::BitSequence(_) => 1,
                TypeDef::Array(a) => (g(a.type_param.id) * a.len as u64).min(1000),
                TypeDef::Tuple(t) => t.fields.iter().map(|f| g(f.id)).sum::<u64>().min(1000),
                TypeDef::Compact(c) => g(c.type_param.id).min(1),
            };
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub peak: u64,
    pub total: u64,
    pub accesses: u64,
    pub bytes: u64,
    pub ok: bool,
}

/// What an operation costs; no more accesses than the budget.
fn cost(c: &Case, budget: u64) -> Result<Cost, Pan> {
    let em = ExtMeta(c.meta.clone());
    let value: &[u8] = if let Op::Store(_, v) = &c.op { v } else { &[] };
    let (b0, b1) = (LogBuf::new(&c.data, 0), LogBuf::new(value, 1));
    let mut m = Mem::with_budget(budget);
    guarded(|| {
        let (o, u) = measure(|| op::run::<LogBuf, Mem, ExtMeta>(c, &|_, k| if k == 0 { b0.clone() } else { b1.clone() }, &mut m, &em));
        let ok = o.is_ok();
        drop(o);
        (ok, u)
    })
    .map(|(ok, u)| Cost { peak: u.peak.max(0) as u64, total: u.total, accesses: m.n, bytes: m.bytes, ok })
}

/// Bytes that describe the largest type.
fn type_size(reg: &scale_info::PortableRegistry) -> u64 {
    use parity_scale_codec::Encode;
    reg.types.iter().map(|t| t.ty.encoded_size() as u64).max().unwrap_or(0)
}

/// The cost fits the steps of the reference decoder and the data.
fn work(c: &Case, st: &mut Local, case: u64, tsize: u64) {
    let s0 = steps_total();
    if op::model_ok(c).is_none() {
        st.skip();
        return;
    }
    let steps = steps_total() - s0;
    let len = c.data.len() as u64 + if let Op::Store(_, v) = &c.op { v.len() as u64 } else { 0 };
    let size = steps + len + c.meta.exts.len() as u64;
    match cost(c, 4000 + 400 * size) {
        Ok(k) => {
            st.max("most peak bytes per step and 100 bytes of type, percent", k.peak * 100 / (size + 10) / (tsize / 100 + 1));
            st.max("most peak bytes per step", k.peak / (size + 10));
            st.max("most bytes allocated per step and 100 bytes of type, percent", k.total * 100 / (size + 10) / (tsize / 100 + 1));
            st.max("most bytes allocated per step", k.total / (size + 10));
            st.max("most accesses per step, percent", k.accesses * 100 / (size + 10));
            st.max("most bytes read per step, percent", k.bytes * 100 / (size + 10));
            let mut over = |what: &str, v: u64, max: u64| {
                if v > max {
                    st.fail(format!("{what}: {v}, allowed {max} for {len} bytes of data and {steps} steps of the reference; {}", op::say(c)))
                }
            };
            over("peak memory", k.peak, 20_000 + (2_000 + 20 * tsize) * (size + 10));
            over("memory allocated in total", k.total, 50_000 + (5_000 + 50 * tsize) * (size + 10));
            over("accesses to storage", k.accesses, 200 + 10 * (size + 10));
            over("bytes read", k.bytes, 400 + 40 * (size + 10));
            st.class(&format!("{}: {}", c.op.name(), if k.ok { "accepted" } else { "refused" }));
            st.class_n("accesses observed", k.accesses);
        }
        Err(p) => fail(p, st, &op::say(c)),
    }
    st.eval(mix(super::types::key(c.op.name().len() as u32, &c.data, case), 4));
}

/// Numbers that no data stands behind.
const CLAIMS: [u128; 13] = [1 << 8, (1 << 14) - 1, 1 << 14, 1 << 16, 1 << 18, 1 << 20, 1 << 24, (1 << 28) - 1, 1 << 29, (1 << 30) - 1, 1 << 30, 1 << 31, u32::MAX as u128];

/// Makes data with a claim in it.
struct Claim {
    meta: Meta,
    op: Op,
    what: String,
    front: Vec<u8>,
    back: Vec<u8>,
    /// Claims from here on are false.
    low: u128,
    levels: u64,
}
impl Claim {
    fn case(&self, n: u128) -> Case {
        let mut data = self.front.clone();
        put_compact(&mut data, n);
        data.extend(&self.back);
        if let Op::Store(e, v) = &self.op {
            if v.first() == Some(&1) {
                // the claim is in the key
                return Case { meta: self.meta.clone(), op: Op::Store(e.clone(), v[1..].to_vec()), data, how: self.what.clone() };
            }
            return Case { meta: self.meta.clone(), op: Op::Store(e.clone(), data), data: v[1..].to_vec(), how: self.what.clone() };
        }
        Case { meta: self.meta.clone(), op: self.op.clone(), data, how: self.what.clone() }
    }
}

fn claim(r: &mut Rng) -> Option<Claim> {
    let n = r.range(1, 14) as usize;
    let mut b = Builder::random(r, n);
    let l = least(&registry_of(&b));
    let kind = r.below(12);
    let present = r.below(6);
    let mut front = vec![];
    let mut back = vec![];
    let mut low = present as u128 + 1;
    let mut levels = 1;
    let what;
    let id = match kind {
        // text
        0 => {
            let k = r.idx(30);
            back = (0..k).map(|_| r.pick(&[b'a', b'z', b' '])).collect();
            low = k as u128 + 1;
            what = "text".to_string();
            gen::STR
        }
        // bits
        1 => {
            let (s, o) = (r.pick(&[gen::U8, gen::U16, gen::U32, gen::U64]), r.pick(&[gen::LSB, gen::MSB]));
            let k = r.idx(40);
            back = r.bytes(k);
            low = (k as u128 + 8) * 8;
            what = "bits".into();
            b.add(mk(&[], gen::bitseq(s, o), &[]))
        }
        // a sequence
        _ => {
            let e = if kind < 5 {
                r.pick(&[gen::U8, gen::U16, gen::U32, gen::U128, gen::STR, gen::BOOL])
            } else {
                let c: Vec<u32> = (0..l.len() as u32).filter(|i| l[*i as usize] > 0).collect();
                if c.is_empty() {
                    return None;
                }
                c[r.idx(c.len())]
            };
            let w = World::of(registry_of(&b), 18);
            for _ in 0..present {
                back.extend(w.value(r, e)?.bytes);
            }
            if r.chance(1, 2) {
                let v = w.value(r, e)?.bytes;
                if !v.is_empty() {
                    back.extend(&v[..r.idx(v.len())]);
                }
            }
            if e == gen::U8 || l[e as usize] > 0 && r.chance(1, 4) {
                // whatever follows, its elements take a byte at least
                low = back.len() as u128 + 1;
            }
            low = low.max(back.len() as u128 + 1);
            what = format!("sequence of {}", show_ty(&w.reg, e));
            b.add(mk(&[], seq(e), &[]))
        }
    };
    // inside other types
    let mut id = id;
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => id = b.add(mk(&["a", "S"], comp(vec![fld(Some("x"), id, Some("Vec<u8>"), &[])]), &["doc"])),
            1 => {
                id = b.add(mk(&[], tup(&[gen::U8, id]), &[]));
                front.insert(0, r.byte());
            }
            2 => {
                id = b.add(mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, id, None, &[])], &[])]), &[]));
                front.insert(0, 1);
            }
            3 => {
                id = b.add(mk(&[], seq(id), &[]));
                front.insert(0, r.pick(&[4, 8, 12]));
                levels += 1;
            }
            4 => {
                id = b.add(mk(&[], seq(id), &[]));
                let mut o = vec![];
                put_compact(&mut o, r.pick(&[1 << 10, 1 << 20, u32::MAX as u128]));
                o.extend(front);
                front = o;
                levels += 1;
            }
            _ => id = b.add(mk(&[], gen::arr(id, r.pick(&[1, 2, 5])), &[])),
        }
    }
    let w = World::of(b.finish(), 18);
    let n = w.reg.types.len() as u64;
    let mut meta = random_meta(r, &w, n);
    let op = match r.below(8) {
        0..=3 => Op::All(id),
        4 => {
            front.insert(0, r.byte());
            Op::At(id, 1)
        }
        5 => {
            let mut t = storage_world(r);
            t.e.ty = StorageEntryType::Plain(sym(id));
            let mut key = vec![0];
            key.extend(r.bytes(32));
            Op::Store(Box::new(t.e), key)
        }
        6 => {
            let mut t = storage_world(r);
            let h = r.pick(&HASHERS);
            t.e.ty = StorageEntryType::Map { hashers: vec![h.clone()], key: sym(id), value: sym(gen::U8) };
            let hash = crate::model2::hash_of(&h, &[]).len();
            let mut f = r.bytes(32 + hash);
            f.extend(front);
            front = f;
            Op::Store(Box::new(t.e), vec![1, 0])
        }
        _ => {
            // as the only extension
            meta.exts = vec![crate::txgen::ext("Thing", id, gen::UNIT)];
            let mut f = vec![0];
            f.extend(front);
            front = f;
            Op::ExtsOnly(None)
        }
    };
    Some(Claim { meta, op, what, front, back, low, levels })
}
fn registry_of(b: &Builder) -> scale_info::PortableRegistry {
    gen::registry(b.types.clone())
}

/// Lengths of whole parts.
fn prefix(r: &mut Rng) -> Option<Claim> {
    let t = any_tx_world(r, 0);
    let n = r.idx(60);
    let back = r.bytes(n);
    let low = n as u128 + 1;
    let (op, what) = match r.below(4) {
        0 => (Op::Marked(None), "length of the call"),
        1 => (Op::CallOnly, "length of the call"),
        2 => (Op::ExtsOnly(None), "length of the call"),
        _ => (Op::Xt, "length of the extrinsic"),
    };
    Some(Claim { meta: t.meta, op, what: what.into(), front: vec![], back, low, levels: 1 })
}

fn independent(x: &Claim, r: &mut Rng, st: &mut Local, case: u64) {
    let base = x.case(x.low);
    if op::model_ok(&base).is_none() {
        st.skip();
        return;
    }
    let budget = 2_000_000;
    let k0 = match cost(&base, budget) {
        Ok(k) => k,
        Err(p) => return fail(p, st, &op::say(&base)),
    };
    let size = x.front.len() as u64 + x.back.len() as u64 + 5;
    for _ in 0..4 {
        let n = r.pick(&CLAIMS);
        if n <= x.low {
            continue;
        }
        let c = x.case(n);
        if op::model_ok(&c).is_none() {
            st.skip();
            continue;
        }
        match cost(&c, budget) {
            Ok(k) => {
                let mut over = |what: &str, v: u64, max: u64| {
                    if v > max {
                        st.fail(format!("{what}: {v} when {n} is claimed, {k0:?} with {} claimed, {size} bytes of data; {}", x.low, op::say(&c)))
                    }
                };
                over("peak memory", k.peak, 2 * k0.peak + 16_384 + 600 * size * x.levels);
                over("memory allocated in total", k.total, 3 * k0.total + 32_768 + 1200 * size * x.levels);
                over("accesses to storage", k.accesses, 2 * k0.accesses + 100 + 4 * size);
                over("bytes read", k.bytes, 2 * k0.bytes + 100 + 40 * size);
                st.class(&format!("claims {}", if k.ok { "that turn out true" } else { "refused" }));
                st.class(&format!("claim of about 2^{}", 128 - n.leading_zeros()));
                st.eval(mix(mix(hash_bytes(&c.data), n as u64), case));
            }
            Err(p) => fail(p, st, &op::say(&c)),
        }
        st.sample(|| format!("{}: {n} claimed over {size} bytes: {k0:?}", x.what));
    }
}

/// Nanoseconds this thread has computed.
fn computed() -> u64 {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// The least time a case takes, in nanoseconds of computing.
fn time(c: &Case, times: u32) -> Option<u64> {
    (0..times)
        .map(|_| {
            let t = computed();
            let k = cost(c, u64::MAX).ok();
            k.map(|_| computed() - t)
        })
        .min()
        .flatten()
}

/// Cost grows with the data, not faster.
fn grows(r: &mut Rng, st: &mut Local, case: u64, far: bool) {
    let n = r.range(1, 10) as usize;
    let mut b = if far { Builder::new() } else { Builder::random(r, n) };
    if far {
        for _ in 0..n {
            let e = r.below(17) as u32;
            let t = match r.below(5) {
                0 => mk(&[], gen::cpt(r.pick(&[gen::U8, gen::U16, gen::U32, gen::U64, gen::U128])), &[]),
                1 => mk(&[], gen::arr(e, 2), &[]),
                2 => mk(&["Two"], comp(vec![fld(Some("a"), e, None, &[]), fld(Some("b"), gen::U16, None, &[])]), &[]),
                3 => mk(&["Option"], enm(vec![var("None", 0, vec![], &[]), var("Some", 1, vec![fld(None, e, None, &[])], &[])]), &[]),
                _ => mk(&[], seq(e), &[]),
            };
            b.add(t);
        }
    }
    let l = least(&registry_of(&b));
    let c: Vec<u32> = (0..l.len() as u32).filter(|i| l[*i as usize] > 0).collect();
    let e = c[r.idx(c.len())];
    let (kind, id) = match r.below(8) {
        0 => ("text", gen::STR),
        1 => ("bits", b.add(mk(&[], gen::bitseq(r.pick(&[gen::U8, gen::U16, gen::U32, gen::U64]), r.pick(&[gen::LSB, gen::MSB])), &[]))),
        _ => ("sequence", b.add(mk(&[], seq(e), &[]))),
    };
    let w = World::of(b.finish(), 18);
    let one: Vec<Vec<u8>> = (0..4).filter_map(|_| w.value(r, e).map(|v| v.bytes)).collect();
    if one.len() < 4 {
        return;
    }
    let k = if far { r.range(1500, 4000) } else { r.range(30, 120) };
    // how many times the data
    let x = if far { 8 } else { 4 };
    let make = |m: u64| {
        let mut d = vec![];
        match kind {
            "text" => {
                put_compact(&mut d, (m * 16) as u128);
                d.extend(vec![b'x'; m as usize * 16]);
            }
            "bits" => {
                put_compact(&mut d, (m * 64) as u128);
                d.extend(vec![0x5a; m as usize * 8]);
            }
            _ => {
                put_compact(&mut d, m as u128);
                for i in 0..m {
                    d.extend(&one[(i % 4) as usize]);
                }
            }
        }
        Case { meta: w.meta(), op: Op::All(id), data: d, how: format!("{m} elements of {kind}") }
    };
    let (small, large) = (make(k), make(x * k));
    if op::model_ok(&small).is_none() || op::model_ok(&large).is_none() {
        st.skip();
        return;
    }
    match (cost(&small, 40_000_000), cost(&large, 400_000_000)) {
        (Ok(a), Ok(z)) => {
            let mut over = |what: &str, v: u64, was: u64| {
                if v > (2 * x + 1) * was + 2000 {
                    st.fail(format!("{what}: {v} for {x} times the data of {was}; {}", op::say(&large)))
                }
            };
            over("peak memory", z.peak, a.peak);
            over("memory allocated in total", z.total, a.total);
            over("accesses to storage", z.accesses, a.accesses);
            over("bytes read", z.bytes, a.bytes);
            if far {
                let (a, z) = (time(&small, 3), time(&large, 1));
                if let (Some(a), Some(mut z)) = (a, z) {
                    let most = 4 * x * a + 300_000_000;
                    if z > most {
                        z = z.min(time(&large, 3).unwrap_or(0));
                    }
                    if z > most {
                        st.fail(format!("{z} ns of computing for {x} times the data of {a} ns; {}", op::say(&large)))
                    }
                    st.max("most milliseconds computed for a case of growth", z / 1_000_000);
                }
            }
            st.class(&format!("growth{} of {kind}", if far { " far" } else { "" }));
            st.class(if z.ok { "growth: accepted" } else { "growth: refused" });
        }
        (Err(p), _) | (_, Err(p)) => fail(p, st, &op::say(&large)),
    }
    st.eval(mix(hash_bytes(&large.data), case));
}

fn c04(run: &Runner) {
    run.stage("claims", run.cfg.n(60_000), |r, c, st| {
        if let Some(x) = claim(r) {
            independent(&x, r, st, c)
        }
    });
    run.stage("prefixes", run.cfg.n(10_000), |r, c, st| {
        if let Some(x) = prefix(r) {
            independent(&x, r, st, c)
        }
    });
    run.stage("work", run.cfg.n(60_000), |r, c, st| {
        if let Some(mut x) = op::gen(r, 0, 40) {
            if r.chance(1, 2) {
                worse(&mut x, r);
            }
            let t = type_size(&x.meta.reg);
            work(&x, st, c, t)
        }
    });
    run.stage("real metadata", run.cfg.n(3_000), |r, c, st| {
        if let Some(mut x) = op::gen(r, 100, 40) {
            if r.chance(1, 2) {
                worse(&mut x, r);
            }
            work(&x, st, c, 20_000)
        }
    });
    run.stage("growth", run.cfg.n(6_000), |r, c, st| grows(r, st, c, false));
    run.stage("growth far", run.cfg.n(200), |r, c, st| grows(r, st, c, true));
    // elements without bytes
    run.stage("nothing", 1, |_, _, st| {
        let mut b = Builder::new();
        let id = b.add(mk(&[], seq(gen::UNIT), &[]));
        let mut data = vec![];
        put_compact(&mut data, 1 << 20);
        let c = Case { meta: Meta::bare(b.finish().into()), op: Op::All(id), data, how: "Vec<()>".into() };
        match cost(&c, u64::MAX) {
            Ok(k) if k.peak > 1_000_000 || k.accesses > 10_000 => {
                let what = format!("Vec<()> claiming 2^20 elements in 4 bytes: {k:?}");
                if known_finding("C04", "zero-size-elements") {
                    run.known(what)
                } else {
                    st.fail(what)
                }
            }
            Ok(_) => {}
            Err(p) => fail(p, st, "Vec<()>"),
        }
        st.eval(4);
    });
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C03",
            rule: "All entry points on sound, damaged, cut, byte-enumerated and blind data, over generated and real metadata; every result and error turned into cards and texts with hostile display settings; synthetic results shown; balances, compacts and map keys directly; nesting up to 1000 levels on a 32 MiB stack. Built with overflow checks and debug assertions; a panic, abort or overflow is a violation. Non-trivial: every case; distinct by (entry point, data, metadata).",
            level: "exploration",
            assumptions: &["cases the reference decoder gives up on (200000 steps, 1500 levels) are skipped", "indents leave room for the nesting of the data"],
            min_distinct: 100_000,
            run: c03,
        },
        Spec {
            id: "C04",
            rule: "Peak and total allocation (counting allocator) and accesses to storage of the real operation: (1) with false claims of up to 2^32-1 against the smallest false claim on the same bytes, (2) against the steps of the reference decoder and the data length, (3) when the data grows fourfold, or eightfold from some thousands of elements (there also the time computed). Non-trivial: a claim that nothing stands behind, or any operation; distinct by (data, claim).",
            level: "exploration",
            assumptions: &["the constants of proportion were calibrated on the present tree and leave a factor of several"],
            min_distinct: 100_000,
            run: c04,
        },
    ]
}
