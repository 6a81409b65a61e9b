//! Runs under Miri: an interpreter that detects undefined behaviour, and has 32-bit targets.
use super::exact::{bits_world, c19_length, c19_long, c19_oversized, c19_refused, c19_value, encode_bits, patterns, C19_TOP};
use super::hostile;
use crate::gen::put_compact;
use crate::mem::{sym, Meta};
use crate::model::steps_total;
use crate::op::{self, Case, Op};
use crate::rng::Rng;
use crate::txgen::{any_tx_world, gen_tx, spoil_call, spoil_ext};
use crate::run::{guarded, hash_bytes, mix, Pan, Runner};
use frame_metadata::v14::StorageEntryMetadata;
use parity_scale_codec::{Decode, Encode};
use primitive_types::H256;
use scale_info::{form::PortableForm, PortableRegistry};
use std::time::{Duration, Instant};
use substrate_parser::traits::{ExtrinsicTypeParams, SpecNameVersion};

fn c19(r: &mut Rng, c: u64) -> Result<u64, String> {
    let x = bits_world();
    let k = (c % 8) as usize;
    let mut n = 0;
    let lens = [0usize, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 191, 192, 193, 200, 256, 300, 320];
    for _ in 0..4 {
        let len = if r.chance(1, 2) { r.pick(&lens) } else { r.idx(200) };
        let p = r.below(8);
        let bits = patterns(r, len, p);
        let pad = if r.chance(1, 2) { 0 } else { r.byte() };
        c19_value(&x, k, &bits, pad)?;
        let d = encode_bits(x.kinds[k].0, x.kinds[k].1, &bits);
        for _ in 0..3 {
            let cut = r.idx(d.len());
            c19_refused(&x, k, &d[..cut])?;
        }
        let claim = r.pick(&[1u128 << 29, (1 << 29) - 1, (1 << 29) + 1, u32::MAX as u128, u32::MAX as u128 - 6, u32::MAX as u128 - 64, 1 << 31, 1 << 30, 100_000]);
        let mut d = vec![];
        put_compact(&mut d, claim);
        let m = r.idx(40);
        d.extend(r.bytes(m));
        c19_refused(&x, k, &d)?;
        n += 5;
    }
    Ok(n)
}

/// A case made and judged where this runs, for 32-bit sizes.
pub fn made(prop: u32, seed: u64, case: u64) -> Result<u64, String> {
    thread_local!(static BITS: super::exact::BitsWorld = bits_world());
    let mut r = Rng::for_case(seed, &format!("C{prop}/w32"), case);
    let mut n = 0;
    let mut seen = |_: u64, _: &str| n += 1;
    match prop {
        19 => BITS.with(|x| match case {
            0..C19_TOP => c19_length(x, &mut r, case as usize, 6, &mut seen),
            c if c % 4 == 0 => c19_long(x, &mut r, &mut seen),
            _ => c19_oversized(x, &mut r, &mut seen),
        })?,
        _ => panic!("harness: no such cases"),
    }
    Ok(n)
}

// ------------------------------------------------------------ cases made natively, run under Miri

type Coded = (PortableRegistry, (u32, u32, u32, u32), u8, Option<(String, String)>, Vec<(String, u32, u32)>);
type CodedOp = (u8, u32, u32, Option<[u8; 32]>, Vec<u8>, Option<StorageEntryMetadata<PortableForm>>, Vec<u8>);

fn code_meta(m: &Meta) -> Vec<u8> {
    let p = &m.params;
    let x: Coded = (
        (*m.reg).clone(),
        (p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id),
        m.version,
        m.spec.clone().ok().map(|s| (s.printed_spec_version, s.spec_name)),
        m.exts.iter().map(|e| (e.identifier.clone(), e.ty.id, e.additional_signed.id)).collect(),
    );
    x.encode()
}
fn decode_meta(b: &[u8]) -> Meta {
    let x = Coded::decode(&mut &b[..]).expect("harness: coded metadata");
    Meta {
        reg: x.0.into(),
        params: ExtrinsicTypeParams { address_ty: sym(x.1 .0), call_ty: sym(x.1 .1), signature_ty: sym(x.1 .2), extra_ty: sym(x.1 .3) },
        version: x.2,
        spec: x.3.map(|(v, n)| SpecNameVersion { printed_spec_version: v, spec_name: n }).ok_or("no spec".to_string()),
        exts: x.4.into_iter().map(|(i, a, b)| crate::txgen::ext(&i, a, b)).collect(),
    }
}
fn code_case(c: &Case) -> Vec<u8> {
    let h = |g: &Option<H256>| g.map(|x| x.0);
    let x: CodedOp = match &c.op {
        Op::All(i) => (0, *i, 0, None, c.data.clone(), None, vec![]),
        Op::At(i, p) => (1, *i, *p as u32, None, c.data.clone(), None, vec![]),
        Op::Marked(g) => (2, 0, 0, h(g), c.data.clone(), None, vec![]),
        Op::Unmarked(g) => (3, 0, 0, h(g), c.data.clone(), None, vec![]),
        Op::CallOnly => (4, 0, 0, None, c.data.clone(), None, vec![]),
        Op::ExtsOnly(g) => (5, 0, 0, h(g), c.data.clone(), None, vec![]),
        Op::Xt => (6, 0, 0, None, c.data.clone(), None, vec![]),
        Op::Store(e, v) => (7, 0, 0, None, c.data.clone(), Some((**e).clone()), v.clone()),
    };
    x.encode()
}
fn decode_case(m: &Meta, b: &[u8]) -> Case {
    let x = CodedOp::decode(&mut &b[..]).expect("harness: coded case");
    let g = x.3.map(H256);
    let op = match x.0 {
        0 => Op::All(x.1),
        1 => Op::At(x.1, x.2 as usize),
        2 => Op::Marked(g),
        3 => Op::Unmarked(g),
        4 => Op::CallOnly,
        5 => Op::ExtsOnly(g),
        6 => Op::Xt,
        _ => Op::Store(Box::new(x.5.expect("harness: entry")), x.6),
    };
    Case { meta: m.clone(), op, data: x.4, how: "coded".into() }
}

/// Claimed lengths around the size of the address space, over one small description.
fn claims(r: &mut Rng, n: usize) -> Vec<Case> {
    use crate::gen::{self, bitseq, comp, enm, fld, mk, seq, tup, var, Builder};
    let mut b = Builder::new();
    let mut ids = vec![gen::STR];
    for s in [gen::U8, gen::U16, gen::U32, gen::U64] {
        ids.push(b.add(mk(&[], bitseq(s, if r.chance(1, 2) { gen::LSB } else { gen::MSB }), &[])));
    }
    for e in [gen::U8, gen::U32, gen::U128, gen::STR] {
        ids.push(b.add(mk(&[], seq(e), &[])));
    }
    let k = r.idx(ids.len());
    let t = b.add(mk(&["x", "T"], comp(vec![fld(Some("a"), gen::U8, None, &[]), fld(Some("b"), ids[k], None, &[])]), &[]));
    let ids2 = [t, b.add(mk(&[], seq(t), &[])), b.add(mk(&[], tup(&[gen::U16, t]), &[]))];
    ids.extend(ids2);
    let inner = b.add(mk(&["p", "pallet", "Call"], enm(vec![var("c", 0, vec![fld(Some("d"), ids[k], None, &[])], &[]), var("t", 1, vec![fld(None, t, None, &[])], &[])]), &[]));
    let call = b.add(mk(&["rt", "RuntimeCall"], enm(vec![var("P", 0, vec![fld(None, inner, None, &[])], &[])]), &[]));
    let mut meta = Meta::bare(b.finish().into());
    meta.params.call_ty = sym(call);
    meta.params.address_ty = sym(gen::U8);
    meta.params.signature_ty = sym(ids[k]);
    meta.params.extra_ty = sym(gen::U16);
    meta.spec = Ok(SpecNameVersion { printed_spec_version: "1".into(), spec_name: "x".into() });
    meta.exts = vec![crate::txgen::ext("A", ids[k], gen::UNIT), crate::txgen::ext("CheckMortality", gen::U8, gen::U8)];
    let mut v = vec![];
    while v.len() < n {
        let claim = match r.below(4) {
            0 => u32::MAX as u128 - r.below(80) as u128,
            1 => (1u128 << r.range(27, 32)) - r.below(4) as u128,
            2 => r.below(40) as u128,
            _ => r.uint(32),
        };
        let mut d = vec![];
        put_compact(&mut d, claim.min(u32::MAX as u128));
        let m = r.idx(40);
        d.extend(r.bytes(m));
        let id = r.pick(&ids);
        let mut front = match r.below(3) {
            0 => vec![],
            1 => vec![0, 0],
            _ => vec![r.byte()],
        };
        front.extend(&d);
        let (op, data) = match r.below(10) {
            0..=2 => (Op::All(id), d),
            3 => (Op::At(id, front.len() - d.len()), front),
            4 => (Op::Marked(None), d),
            5 => {
                let mut x = vec![];
                put_compact(&mut x, r.below(front.len() as u64 + 1) as u128);
                x.extend(&front);
                (r.pick(&[Op::CallOnly, Op::ExtsOnly(None), Op::Marked(None)]), x)
            }
            6 => (Op::Unmarked(None), front),
            7 => (Op::Xt, d),
            8 => {
                let mut y = vec![if r.chance(1, 2) { 0x84 } else { 0x04 }];
                y.extend(front);
                let mut x = vec![];
                put_compact(&mut x, if r.chance(1, 2) { y.len() as u128 } else { r.uint(32) });
                x.extend(y);
                (Op::Xt, x)
            }
            _ => {
                use frame_metadata::v14::{StorageEntryModifier, StorageEntryType, StorageHasher};
                let ty = if r.chance(1, 2) { StorageEntryType::Plain(sym(id)) } else { StorageEntryType::Map { hashers: vec![StorageHasher::Identity], key: sym(id), value: sym(id) } };
                let e = StorageEntryMetadata { name: "E".into(), modifier: StorageEntryModifier::Default, ty, default: vec![], docs: vec![] };
                let mut key = r.bytes(32);
                key.extend(&d);
                (Op::Store(Box::new(e), d), key)
            }
        };
        v.push(Case { meta: meta.clone(), op, data, how: "claims".into() });
    }
    v
}

fn cheap(c: &Case, steps: u64) -> bool {
    let s0 = steps_total();
    c.data.len() < 5 * steps as usize && op::model_ok(c).is_some() && steps_total() - s0 < steps
}

/// Operations on hostile data, several over each description.
fn block(r: &mut Rng, n: usize, sound: u64, steps: u64) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for _ in 0..(n / 300).max(1) {
        v.extend(claims(r, 30).into_iter().filter(|c| cheap(c, steps)));
    }
    while v.len() < n {
        let size = v.len();
        if r.chance(1, 8) {
            // all operations of a transaction
            let t = any_tx_world(r, 0);
            if t.meta.encoded() > 75 * steps as usize {
                continue;
            }
            let Some(x) = gen_tx(&t, r) else { continue };
            let mut m = x.meta.clone();
            m.reg = t.meta.reg.clone();
            for k in 0..12 {
                let y = match k {
                    0..=2 => x.clone(),
                    3..=6 => spoil_ext(&t, &x, r).0,
                    _ => spoil_call(&t, &x, r).0,
                };
                let (op, data) = match k % 5 {
                    0 => (Op::Marked(y.genesis), y.marked()),
                    1 => (Op::Unmarked(y.genesis), y.unmarked()),
                    2 => (Op::ExtsOnly(y.genesis), y.marked()),
                    3 => (Op::CallOnly, y.marked()),
                    _ => match super::tx::gen_extrinsic(&t, r, 50) {
                        Some((d, _)) => (Op::Xt, d),
                        None => continue,
                    },
                };
                let c = Case { meta: m.clone(), op, data, how: String::new() };
                if cheap(&c, steps) {
                    v.push(c)
                }
            }
        } else {
            let k = r.range(1, 6) as usize;
            let w = crate::common::World::of(crate::gen::Builder::random(r, k).finish(), 18);
            if w.meta().encoded() > 40 * steps as usize {
                continue;
            }
            for _ in 0..12 {
                let keep = r.chance(sound, 100);
                let Some(mut c) = op::gen_value(&w, r, keep, String::new()) else { continue };
                if !keep {
                    hostile::worse(&mut c, r);
                }
                if cheap(&c, steps) {
                    v.push(c)
                }
            }
        }
        // the dearer half of one's luck is not needed
        v.truncate(size + 12);
    }
    v
}
trait Encoded {
    fn encoded(&self) -> usize;
}
impl Encoded for Meta {
    fn encoded(&self) -> usize {
        self.reg.encoded_size()
    }
}
/// What a case says, whatever the target.
fn says(c: &Case, show: bool) -> u64 {
    match op::run_plain(c) {
        Ok(v) if show => {
            let s = substrate_parser::ShortSpecs { base58prefix: 42, decimals: 10, unit: "U".into() };
            op::cards(v, 0, &s, "n").len() as u64
        }
        Ok(v) => op::lines_short(&v).iter().fold(1, |h, s| mix(h, hash_bytes(s.as_bytes()))),
        Err(e) => mix(hash_bytes(small(&e.0).as_bytes()), hash_bytes(small(&e.1).as_bytes())),
    }
}
/// An error without its positions and lengths near the size of a 32-bit address space.
fn small(s: &str) -> String {
    let mut o = String::new();
    let mut run = String::new();
    for ch in s.chars().chain(std::iter::once(' ')) {
        if ch.is_ascii_digit() {
            run.push(ch);
            continue;
        }
        let big = run.len() > 10 || run.parse::<u64>().map(|n| n >= 1 << 31).unwrap_or(false);
        o.push_str(if big { "#" } else { &run });
        run.clear();
        o.push(ch);
    }
    o
}
fn write_block(path: &str, cs: &[Case]) {
    let mut s = String::new();
    let mut last: Option<std::sync::Arc<PortableRegistry>> = None;
    for c in cs {
        if !last.as_ref().map(|l| std::sync::Arc::ptr_eq(l, &c.meta.reg)).unwrap_or(false) {
            s.push_str(&format!("M{}\n", hex::encode(code_meta(&c.meta))));
            last = Some(c.meta.reg.clone());
        }
        s.push_str(&format!("C{}\n", hex::encode(code_case(c))));
    }
    std::fs::write(path, s).expect("write block");
}
thread_local!(static LOADED: std::cell::RefCell<Vec<Case>> = const { std::cell::RefCell::new(vec![]) });
/// Take over the cases of a block.
pub fn load(s: &str) -> u32 {
    let mut meta = None;
    let mut v = vec![];
    for l in s.lines() {
        let b = hex::decode(&l[1..]).expect("harness: hex");
        if l.starts_with('M') {
            meta = Some(decode_meta(&b));
        } else {
            v.push(decode_case(meta.as_ref().expect("harness: metadata"), &b));
        }
    }
    let n = v.len() as u32;
    LOADED.with(|l| *l.borrow_mut() = v);
    n
}
pub fn says_loaded(i: usize, show: bool) -> u64 {
    LOADED.with(|l| says(&l.borrow()[i], show))
}

/// All cases of a block in several threads at once, nothing but the descriptions shared and nothing to order the
/// threads, so that a detector of data races sees all of them.
fn race(s: &str, secs: u64, show: bool, threads: usize) -> i32 {
    use std::sync::{Arc, Barrier};
    // each thread tells nearly the same cases at nearly the same time
    let group = if cfg!(miri) { 2 } else { 6 };
    let t0 = Instant::now();
    let mut done: usize = 0;
    let mut orders = std::collections::HashSet::new();
    let mut meta = None;
    let mut lines = s.lines().peekable();
    while lines.peek().is_some() && t0.elapsed() < Duration::from_secs(secs) {
        let mut cs = vec![];
        while cs.len() < group {
            let Some(l) = lines.next() else { break };
            let b = hex::decode(&l[1..]).expect("harness: hex");
            if l.starts_with('M') {
                meta = Some(decode_meta(&b));
            } else {
                cs.push(decode_case(meta.as_ref().expect("harness: metadata"), &b));
            }
        }
        if cs.is_empty() {
            break;
        }
        let (from, to, cs) = (done, done + cs.len(), Arc::new(cs));
        let turn = Arc::new(std::sync::atomic::AtomicU64::new(0));
        let bar = Arc::new(Barrier::new(threads));
        let ts: Vec<_> = (0..threads)
            .map(|k| {
                let (cs, bar, turn) = (cs.clone(), bar.clone(), turn.clone());
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || {
                        bar.wait();
                        let mut out = vec![];
                        for j in 0..to - from {
                            let i = from + (j + k) % (to - from);
                            // relaxed: tells the order without making one
                            let at = turn.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            out.push((i, at, guarded(|| says(&cs[i - from], show))));
                        }
                        out
                    })
                    .expect("thread")
            })
            .collect();
        let mut said: Vec<Option<u64>> = vec![None; to - from];
        let mut order = vec![];
        for (k, t) in ts.into_iter().enumerate() {
            for (i, at, o) in t.join().expect("join") {
                order.push((at, k, i));
                match o {
                    Ok(d) => match said[i - from] {
                        None => said[i - from] = Some(d),
                        Some(x) if x == d => {}
                        Some(x) => {
                            println!("FAIL case {i}: {x} in one thread, {d} in another; {}", op::say(&cs[i - from]).replace('\n', " "));
                            return 1;
                        }
                    },
                    Err(Pan::Code(e)) => {
                        println!("FAIL case {i} in a thread: {e}; {}", op::say(&cs[i - from]).replace('\n', " "));
                        return 1;
                    }
                    Err(Pan::Budget(_)) => return 3,
                    Err(Pan::Harness(e)) => {
                        println!("HARNESS case {i}: {e}");
                        return 3;
                    }
                }
            }
        }
        order.sort();
        orders.insert(hash_bytes(format!("{order:?}").as_bytes()));
        for (i, d) in said.iter().enumerate() {
            println!("SAYS {} {}", from + i, d.unwrap_or(0));
        }
        done = to;
    }
    println!("DONE {done} cases {done} evaluations orders {} pointer width {}", orders.len(), usize::BITS);
    0
}

/// `vh probe vm file PATH SECONDS SHOW THREADS`
fn file(args: &[String]) -> i32 {
    crate::run::install_hook();
    let s = std::fs::read_to_string(&args[2]).expect("harness: block");
    let secs: u64 = args[3].parse().unwrap_or(10);
    let show = args[4] == "1";
    let threads: usize = args.get(5).and_then(|x| x.parse().ok()).unwrap_or(1);
    if threads > 1 {
        return race(&s, secs, show, threads);
    }
    let t0 = Instant::now();
    let mut meta = None;
    let mut i = 0;
    for l in s.lines() {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let b = hex::decode(&l[1..]).expect("harness: hex");
        if l.starts_with('M') {
            meta = Some(decode_meta(&b));
            continue;
        }
        let c = decode_case(meta.as_ref().expect("harness: metadata"), &b);
        match guarded(|| says(&c, show)) {
            Ok(d) => println!("SAYS {i} {d}"),
            Err(Pan::Code(e)) => {
                println!("FAIL case {i}: {e}; {}", op::say(&c).replace('\n', " "));
                return 1;
            }
            Err(Pan::Budget(_)) => return 3,
            Err(Pan::Harness(e)) => {
                println!("HARNESS case {i}: {e}");
                return 3;
            }
        }
        i += 1;
    }
    println!("DONE {i} cases {i} evaluations pointer width {}", usize::BITS);
    0
}

/// `vh probe vm PROP SEED FROM N SECONDS`
pub fn probe(args: &[String]) -> i32 {
    if args[1] == "file" {
        if cfg!(miri) {
            return file(args);
        }
        let args = args.to_vec();
        return std::thread::Builder::new().stack_size(1 << 30).spawn(move || file(&args)).expect("thread").join().unwrap_or(3);
    }
    crate::run::install_hook();
    let num = |i: usize| args[i].parse::<u64>().unwrap_or(0);
    let (seed, from, n, secs) = (num(2), num(3), num(4), num(5));
    let t0 = Instant::now();
    let mut evals = 0;
    let mut done = 0;
    for c in from..from + n {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let mut r = Rng::for_case(seed, &format!("{}/vm", args[1]), c);
        let o = match args[1].as_str() {
            _ => guarded(|| c19(&mut r, c)),
        };
        match o {
            Ok(Ok(k)) => evals += k,
            Ok(Err(e)) => {
                println!("FAIL case {c}: {}", e.replace('\n', " "));
                return 1;
            }
            Err(Pan::Code(e)) => {
                println!("FAIL case {c}: {e}");
                return 1;
            }
            Err(Pan::Budget(_)) => return 3,
            Err(Pan::Harness(e)) => {
                println!("HARNESS case {c}: {e}");
                return 3;
            }
        }
        done += 1;
    }
    println!("DONE {done} cases {evals} evaluations pointer width {}", usize::BITS);
    0
}

/// One run under Miri: its output, or what is wrong.
fn under_miri(root: &str, target: &str, tree: bool, seed: u64, args: &[String]) -> Result<String, String> {
    let Ok(dir) = std::env::var("VERIF_MIRI") else {
        panic!("VERIF_MIRI is not set");
    };
    let run = std::env::var("VERIF_MIRI_RUN").expect("VERIF_MIRI_RUN");
    let mut c = std::process::Command::new(run);
    c.current_dir(format!("{root}/harness"))
        .args(["runner", &format!("{dir}/miri/{target}/debug/vh"), "probe", "vm"])
        .args(args)
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={seed} {}", if tree { "-Zmiri-tree-borrows" } else { "-Zmiri-disable-stacked-borrows" }));
    let o = c.output().expect("start cargo miri");
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if let Some(l) = out.lines().find(|l| l.starts_with("FAIL")) {
        return Err(format!("on {target}: {l}"));
    }
    if err.contains("Undefined Behavior") {
        let k = err.find("Undefined Behavior").unwrap_or(0).saturating_sub(20);
        return Err(format!("on {target}: {}", crate::common::cut(err.get(k..).unwrap_or(&err).to_string(), 3000)));
    }
    if o.status.code() != Some(0) || !out.contains("DONE") {
        panic!("harness: Miri for {target}: {} {out} {}", o.status, crate::common::cut(err, 3000));
    }
    Ok(out)
}
fn evaluations(out: &str) -> u64 {
    out.lines().find(|l| l.starts_with("DONE")).and_then(|l| l.split(' ').nth(3)?.parse().ok()).unwrap_or(0)
}

/// One run of the 32-bit build.
fn under_w32(root: &str, args: &[String]) -> Result<String, String> {
    let Ok(module) = std::env::var("VERIF_W32") else {
        panic!("VERIF_W32 is not set");
    };
    let o = std::process::Command::new("bash")
        .args(["-c", "ulimit -s 1000000; exec node --stack-size=900000 \"$@\"", "bash", &format!("{root}/harness/v32.mjs"), &module])
        .args(args)
        .output()
        .expect("start node");
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if let Some(l) = out.lines().find(|l| l.starts_with("FAIL")) {
        return Err(format!("with 32-bit sizes: {l}"));
    }
    if o.status.code() != Some(0) || !out.contains("DONE") {
        panic!("harness: 32-bit build: {} {out} {}", o.status, crate::common::cut(err, 3000));
    }
    if !out.contains("pointer width 32") {
        panic!("harness: the 32-bit build is none");
    }
    Ok(out)
}

/// Cases of the property made and judged in the 32-bit build, divided over blocks.
pub fn w32_made(run: &Runner, blocks: u64, secs: u64) {
    let (prop, seed, root) = (run.cfg.prop.clone(), run.cfg.seed, run.cfg.root.clone());
    let per = run.cfg.n(800) / blocks;
    run.stage("w32", blocks, |_, b, st| {
        let args: Vec<String> = vec!["made".into(), prop.clone(), seed.to_string(), (b * per).to_string(), per.to_string(), secs.to_string()];
        match under_w32(&root, &args) {
            Err(e) => st.fail(format!("block {b}: {e}")),
            Ok(out) => {
                let n = evaluations(&out);
                st.class_n("evaluations with 32-bit sizes", n);
                for i in 0..n {
                    st.eval(mix(mix(b, i), 32));
                }
                st.sample(|| format!("32-bit sizes, block {b}: {}", out.trim()));
            }
        }
    });
}

/// Blocks of cases of C19 under Miri.
pub fn miri(run: &Runner, target: &str, blocks: u64, secs: u64) {
    let (prop, seed, root, tree) = (run.cfg.prop.clone(), run.cfg.seed, run.cfg.root.clone(), !run.cfg.quick());
    let per = 10_000;
    run.stage(&format!("miri-{target}"), run.cfg.n(blocks), |_, b, st| {
        let args: Vec<String> = vec![prop.clone(), seed.to_string(), (b * per).to_string(), per.to_string(), secs.to_string()];
        match under_miri(&root, target, tree && b % 2 == 0, b, &args) {
            Err(e) => st.fail(format!("block {b}: {e}")),
            Ok(out) => {
                let n = evaluations(&out);
                st.class_n(&format!("evaluations under Miri for {target}"), n);
                for i in 0..n {
                    st.eval(mix(mix(b, i), hash_bytes(target.as_bytes())));
                }
                st.sample(|| format!("Miri {target}, block {b}: {n} evaluations"));
            }
        }
    });
}

#[derive(Clone, Copy, PartialEq)]
pub enum Other {
    Miri(&'static str),
    /// The 32-bit WebAssembly build.
    W32,
    /// A build with a sanitizer of the compiler: the variable naming it, and its name.
    San(&'static str, &'static str),
}
/// One run of a build with a sanitizer.
fn under_san(var: &str, name: &str, args: &[String]) -> Result<String, String> {
    let Ok(exe) = std::env::var(var) else {
        panic!("{var} is not set");
    };
    let o = std::process::Command::new(exe)
        .args(["probe", "vm"])
        .args(args)
        .env("TSAN_OPTIONS", "exitcode=77 halt_on_error=1")
        .env("ASAN_OPTIONS", "exitcode=77 detect_leaks=0")
        .env("MSAN_OPTIONS", "exitcode=77")
        .output()
        .expect("start");
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if let Some(l) = out.lines().find(|l| l.starts_with("FAIL")) {
        return Err(format!("with {name}: {l}"));
    }
    if let Some(k) = err.find("Sanitizer:") {
        return Err(format!("{name}: {}", crate::common::cut(err.get(k.saturating_sub(40)..).unwrap_or(&err).to_string(), 3000)));
    }
    if o.status.code() != Some(0) || !out.contains("DONE") {
        panic!("harness: {name}: {} {out} {}", o.status, crate::common::cut(err, 3000));
    }
    Ok(out)
}
/// Blocks of operations made natively and run elsewhere; `compare`: their results must be those of this build.
/// `threads`: more than one runs each case in as many threads at once.
pub fn blocks(run: &Runner, other: Other, blocks: u64, per: usize, secs: u64, compare: bool, threads: u64) {
    let (root, tree) = (run.cfg.root.clone(), !run.cfg.quick());
    let name = match other {
        Other::Miri(t) => format!("miri-{t}"),
        Other::W32 => "w32".to_string(),
        Other::San(_, n) => n.to_string(),
    };
    let name = if threads > 1 { format!("{name}-threads") } else { name };
    let place = match other {
        Other::Miri(t) => format!("under Miri for {t}"),
        Other::W32 => "with 32-bit sizes".to_string(),
        Other::San(_, n) => format!("with {n}"),
    };
    let place = if threads > 1 { format!("in {threads} threads {place}") } else { place };
    run.stage(&name, run.cfg.n(blocks), |r, b, st| {
        let cs = block(r, per, if compare { 70 } else { 30 }, if matches!(other, Other::Miri(_)) { 40 } else { 3000 });
        let path = format!("{root}/evidence/.block-{}-{name}-{b}", std::process::id());
        write_block(&path, &cs);
        let show = (!compare as u8).to_string();
        let o = match other {
            Other::Miri(target) => under_miri(&root, target, tree && b % 2 == 0, b, &["file".into(), path.clone(), secs.to_string(), show, threads.to_string()]),
            Other::San(var, name) => under_san(var, name, &["file".into(), path.clone(), secs.to_string(), show, threads.to_string()]),
            Other::W32 => under_w32(&root, &["block".into(), path.clone(), secs.to_string(), show]),
        };
        let _ = std::fs::remove_file(&path);
        match o {
            Err(e) => st.fail(format!("block {b}: {e}")),
            Ok(out) => {
                let mut n = 0;
                for l in out.lines().filter(|l| l.starts_with("SAYS")) {
                    let w: Vec<&str> = l.split(' ').collect();
                    let i: usize = w[1].parse().unwrap_or(0);
                    if compare {
                        let here = says(&cs[i], false).to_string();
                        if here != w[2] {
                            st.fail(format!("result {place} differs from {}; {}", op::show_out(&op::run_plain(&cs[i])), op::say(&cs[i])));
                        }
                    }
                    n += 1;
                    st.class(&format!("{} {place}", cs[i].op.name()));
                    st.eval(mix(mix(b, i as u64), mix(hash_bytes(&cs[i].data), hash_bytes(place.as_bytes()))));
                }
                st.class_n(&format!("operations {place}"), n);
                if threads > 1 {
                    let orders = out.lines().find(|l| l.starts_with("DONE")).and_then(|l| l.split(' ').nth(6)?.parse().ok()).unwrap_or(0);
                    st.class_n(&format!("distinct orders of operations {place}"), orders);
                }
                st.sample(|| format!("{place}, block {b}: {n} operations"));
            }
        }
    });
}
