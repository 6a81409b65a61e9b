//! Cards and texts: C15, C16; the cards of C17 and C25.
use crate::cardmodel::{self as cm, cards_agree, Pay, MC};
use crate::common::*;
use crate::mem::Meta;
use crate::model::Model;
use crate::model2::{self as m2, O};
use crate::rng::Rng;
use crate::run::{hash_bytes, mix, Local, Runner, Spec};
use crate::txgen::{any_tx_world, gen_call, gen_tx};
use substrate_parser::cards::{Call, Event, ExtendedCard, ExtendedData, ParserCard};
use substrate_parser::special_indicators::SpecialtyUnsignedInteger as U;
use substrate_parser::{ShortSpecs, TransactionParsed, TransactionUnmarkedParsed};

fn indent_of(r: &mut Rng) -> u32 {
    r.pick(&[0u32, 0, 0, 1, 2, 3, 7, 20])
}
const NAMES: [&str; 5] = ["polkadot", "", "two words", "ünï", "1"];

fn hash_debug(e: &ExtendedData) -> u64 {
    hash_bytes(format!("{:?}", crate::val::of_ext(e)).as_bytes())
}

/// Items of every origin: synthetic, decoded from generated and real types, calls, transactions.
fn item(r: &mut Rng) -> Option<(ExtendedData, &'static str)> {
    match r.below(10) {
        0..=5 => Some((cm::extended(r, 0), "synthetic")),
        6 | 7 => {
            let (w, _) = super::types::world_of(r, 25);
            let id = w.target(r);
            let x = w.value(r, id)?;
            Model::new(&w.reg, &x.bytes).all(id).ok()?;
            Some((real_all(&w.reg, id, &x.bytes).ok()?, "decoded"))
        }
        8 => {
            let (w, id) = super::types::nested(r);
            let x = w.value(r, id)?;
            Model::new(&w.reg, &x.bytes).all(id).ok()?;
            Some((real_all(&w.reg, id, &x.bytes).ok()?, "nested"))
        }
        _ => {
            let t = any_tx_world(r, 30);
            let (b, valid) = gen_call(&t, r)?;
            let id = t.meta.params.call_ty.id;
            if !valid || Model::new(&t.meta.reg, &b).all(id).is_err() {
                return None;
            }
            Some((real_all(&t.meta.reg, id, &b).ok()?, "call"))
        }
    }
}

fn report(e: &ExtendedData, at: &str) -> String {
    format!("; {at}; item {}", cut(format!("{:?}", crate::val::of_ext(e)), 1500))
}

fn c15(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, c: u64, long: bool| {
        let Some((e, src)) = (if long { Some((cm::long_item(r), "long")) } else { item(r) }) else { return };
        let (indent, money, specs, name) = (indent_of(r), r.chance(1, 2), cm::short_specs(r), r.pick(&NAMES));
        let want = cm::of_ext(&e, indent, money, name);
        let got = e.card(indent, money, &specs, name);
        if let Err(x) = cards_agree(&want, &got, &specs) {
            st.fail(format!("{x}{}", report(&e, &format!("indent {indent}, balances {money}, {specs:?}"))));
        }
        // the item below its information
        let bare = e.data.card(vec![], indent, money, &specs, name);
        if let Err(x) = cards_agree(&want, &bare, &specs) {
            st.fail(format!("parsed data alone: {x}{}", report(&e, src)));
        }
        // shifted as a whole, the rest the same
        let by = r.pick(&[1u32, 5, 1000, 0x7000_0000]);
        let shifted = e.card(indent + by, money, &specs, name);
        let same = shifted.len() == got.len()
            && shifted.iter().zip(&got).all(|(a, b)| a.indent == b.indent + by && a.parser_card == b.parser_card && a.info_flat == b.info_flat);
        if !same {
            st.fail(format!("cards from indent {} are not those from {indent} shifted by {by}{}", indent + by, report(&e, src)));
        }
        // texts are those of the cards, one after another
        for (what, whole, parts) in [
            ("text", e.show(indent, money, &specs, name), got.iter().map(|c| c.show()).collect::<Vec<_>>()),
            ("text with documentation", e.show_with_docs(indent, money, &specs, name), got.iter().map(|c| c.show_with_docs()).collect::<Vec<_>>()),
        ] {
            if whole != parts.join("\n") {
                st.fail(format!("{what} of the item is not that of its cards{}", report(&e, src)));
            }
        }
        for w in &want {
            st.class(w.kind);
        }
        st.class_n(&format!("{src} items"), 1);
        if want.is_empty() {
            st.eval_trivial();
        } else {
            st.eval(mix(hash_debug(&e), indent as u64));
        }
        st.sample(|| format!("{src} c{c}: {}", cut(got.iter().map(|c| c.show()).collect::<Vec<_>>().join(" | "), 2000)));
    };
    run.stage("items", run.cfg.n(50_000), |r, c, st| body(r, st, c, false));
    run.stage("long", run.cfg.n(1_500), |r, c, st| body(r, st, c, true));
    run.stage("transactions", run.cfg.n(12_000), |r, c, st| {
        let (call, ext): (Call, Vec<ExtendedData>) = if r.chance(1, 2) {
            let n = r.below(6);
            (Call(cm::pallet(r, 0)), (0..n).map(|_| cm::extended(r, 1)).collect())
        } else {
            let t = any_tx_world(r, 30);
            let Some(x) = gen_tx(&t, r) else { return };
            let d = x.unmarked();
            let O::Ok(m) = m2::unmarked_tx(&x.meta, &d, x.genesis) else { return };
            let Ok(call) = m.call else { return };
            (call, m.ext)
        };
        let (specs, name) = (cm::short_specs(r), r.pick(&NAMES));
        let event = Event(call.0.clone());
        let mut w = cm::Cx { spec_name: name, out: vec![] };
        w.pallet(&event.0, "EventName", 3);
        if let Err(x) = cards_agree(&w.out, &event.card(3, &specs, name), &specs) {
            st.fail(format!("event: {x}; {call:?}"));
        }
        let want_call = cm::of_call(&call, 0, name);
        let want_ext: Vec<MC> = ext.iter().flat_map(|e| cm::of_ext(e, 0, true, name)).collect();
        let check = |what: &str, calls: &[ExtendedCard], exts: &[ExtendedCard], st: &mut Local| {
            if let Err(x) = cards_agree(&want_call, calls, &specs) {
                st.fail(format!("call of {what}: {x}; {}", cut(format!("{call:?}"), 1500)));
            }
            if let Err(x) = cards_agree(&want_ext, exts, &specs) {
                st.fail(format!("extensions of {what}: {x}; {}", cut(format!("{ext:?}"), 1500)));
            }
        };
        let p = TransactionParsed::<(), Meta> { call_result: Ok(call.clone()), extensions: ext.clone() }.card(&specs, name);
        match &p.call_result {
            Ok(k) => check("a transaction", k, &p.extensions, st),
            Err(e) => st.fail(format!("cards of a transaction lose the call: {e:?}")),
        }
        let p = TransactionUnmarkedParsed { call: call.clone(), extensions: ext.clone() }.card(&specs, name);
        check("an unmarked transaction", &p.call, &p.extensions, st);
        // a call that is not there stays the same error, the extensions the same
        let err = || substrate_parser::error::SignableError::<(), Meta>::SomeDataNotUsedCall { from: 7, to: c as usize };
        let p = TransactionParsed::<(), Meta> { call_result: Err(err()), extensions: ext.clone() }.card(&specs, name);
        match &p.call_result {
            Ok(_) => st.fail("cards of a transaction make a call of an error".into()),
            Err(e) if format!("{e:?}") != format!("{:?}", err()) => st.fail(format!("cards of a transaction change the error to {e:?}")),
            Err(_) => {
                if let Err(x) = cards_agree(&want_ext, &p.extensions, &specs) {
                    st.fail(format!("extensions of a transaction with an undecoded call: {x}; {}", cut(format!("{ext:?}"), 1500)));
                }
            }
        }
        st.class_n("extension cards", want_ext.len() as u64);
        st.class_n("call cards", want_call.len() as u64);
        st.eval(mix(hash_bytes(format!("{call:?}").as_bytes()), ext.len() as u64));
    });
}

fn texts(want: &[MC], got: &[ExtendedCard], specs: &ShortSpecs, st: &mut Local, about: &dyn Fn() -> String) {
    for (w, g) in want.iter().zip(got) {
        let s = g.show();
        if let Err(e) = cm::text_agrees(w, &s, "", specs) {
            st.fail(format!("{} card: {e}; {specs:?}{}", w.kind, about()));
        }
        let s = g.show_with_docs();
        if let Err(e) = cm::text_agrees(w, &s, &cm::docs_tail(w), specs) {
            st.fail(format!("{} card with documentation: {e}; {specs:?}{}", w.kind, about()));
        }
        // one form for the same value
        st.class(w.kind);
        st.eval(mix(hash_bytes(s.as_bytes()), specs.base58prefix as u64));
        st.sample(|| s.clone());
    }
}

/// The key belongs to the picture.
fn keys(g: &ExtendedCard, w: &MC, specs: &ShortSpecs) -> Result<(), String> {
    let (Pay::Key(k), ParserCard::Id(d) | ParserCard::PublicEd25519(d) | ParserCard::PublicSr25519(d) | ParserCard::PublicEcdsa(d)) = (&w.pay, &g.parser_card) else {
        return Ok(());
    };
    let want = cm::ss58(k, specs.base58prefix);
    if d.base58 != want {
        return Err(format!("address {} instead of {want} for key {} and prefix {}", d.base58, hex::encode(k), specs.base58prefix));
    }
    #[cfg(feature = "std")]
    if d.identicon != plot_icon::generate_png_scaled_default(k) {
        return Err(format!("picture is not that of key {}", hex::encode(k)));
    }
    Ok(())
}

fn c16(run: &Runner) {
    let body = |r: &mut Rng, st: &mut Local, long: bool| {
        let Some((e, src)) = (if long { Some((cm::long_item(r), "long")) } else { item(r) }) else { return };
        let (indent, money, specs, name) = (indent_of(r), r.chance(1, 2), cm::short_specs(r), r.pick(&NAMES));
        let want = cm::of_ext(&e, indent, money, name);
        let got = e.card(indent, money, &specs, name);
        if want.len() != got.len() {
            st.fail(format!("{} cards instead of {}{}", got.len(), want.len(), report(&e, src)));
            return;
        }
        texts(&want, &got, &specs, st, &|| report(&e, src));
    };
    run.stage("items", run.cfg.n(60_000), |r, _, st| body(r, st, false));
    run.stage("long", run.cfg.n(1_500), |r, _, st| body(r, st, true));
    run.stage("leaves", run.cfg.n(100_000), |r, _, st| {
        let e = ExtendedData { data: cm::parsed(r, 9), info: cm::infos(r) };
        let (indent, money, specs, name) = (indent_of(r), r.chance(1, 2), cm::short_specs(r), r.pick(&NAMES));
        let want = cm::of_ext(&e, indent, money, name);
        let got = e.card(indent, money, &specs, name);
        if want.len() != got.len() {
            st.fail(format!("{} cards instead of {}{}", got.len(), want.len(), report(&e, "leaf")));
            return;
        }
        texts(&want, &got, &specs, st, &|| report(&e, "leaf"));
    });
    // cards made directly, with any content at all
    run.stage("direct", run.cfg.n(60_000), |r, _, st| {
        let (kind, card, pay) = direct(r);
        let specs = ShortSpecs { base58prefix: 0, decimals: 0, unit: String::new() };
        let n = r.below(4);
        let info_flat: Vec<_> = (0..n).map(|_| cm::info(r).flatten()).collect();
        let g = ExtendedCard { parser_card: card, indent: indent_of(r), info_flat };
        let w = MC { indent: g.indent, kind, pay, elem: cm::elem_of(&g.parser_card), info: cm::flat(&g.info_flat) };
        texts(&[w], &[g], &specs, st, &String::new);
    });
    // addresses: all prefixes, all kinds of keys
    let all = !run.cfg.quick();
    run.stage("addresses", if all { 8_192 } else { 1_600 }, |r, c, st| {
        for k in 0..4u64 {
            let mut b = r.bytes(33);
            match (c + k) % 7 {
                0 => b = vec![0; 33],
                1 => b = vec![0xff; 33],
                2 => b[..20].fill(0),
                _ => {}
            }
            let n: [u8; 32] = b[..32].try_into().unwrap();
            use substrate_crypto_light::{common::AccountId32, ecdsa, ed25519, sr25519};
            use substrate_parser::cards::ParsedData as P;
            let data = match k {
                0 => P::Id(AccountId32(n)),
                1 => P::PublicEd25519(ed25519::Public(n)),
                2 => P::PublicSr25519(sr25519::Public(n)),
                _ => P::PublicEcdsa(ecdsa::Public(b.clone().try_into().unwrap())),
            };
            // every prefix for one of the kinds, the low and the turning ones for all
            for j in 0..8u64 {
                let p = if j == 7 { r.below(200) } else if all || c < 40 { (c * 8 + j) % 65536 } else { r.below(65536) };
                let specs = ShortSpecs { base58prefix: p as u16, decimals: 10, unit: "X".into() };
                let e = ExtendedData { data: data.clone(), info: vec![] };
                let w = cm::of_ext(&e, 0, false, "x");
                if j != 0 && k != (c & 3) {
                    continue;
                }
                let g = e.card(0, false, &specs, "x");
                if g.len() != 1 {
                    st.fail(format!("{} cards for a key", g.len()));
                    return;
                }
                if let Err(e) = keys(&g[0], &w[0], &specs) {
                    st.fail(e);
                }
                if let Err(e) = cm::text_agrees(&w[0], &g[0].show(), "", &specs) {
                    st.fail(e);
                }
                st.class(if p < 64 { "one-byte prefix" } else if p < 16384 { "two-byte prefix" } else { "prefix beyond 14 bits" });
                st.class(w[0].kind);
                st.eval(mix(mix(hash_bytes(&b), p), k));
            }
        }
    });
}

/// A card with arbitrary content, made directly.
fn direct(r: &mut Rng) -> (&'static str, ParserCard, Pay) {
    use substrate_parser::cards::IdData;
    use ParserCard as C;
    let t = cm::text(r);
    let p = Pay::Text(t.clone());
    let id = |t: &String| IdData {
        base58: t.clone(),
        #[cfg(feature = "std")]
        identicon: vec![1, 2, 3],
    };
    let n = r.uint(32) as usize;
    let elem: Vec<_> = cm::infos(r).iter().map(|x| x.flatten()).collect();
    match r.below(24) {
        0 => ("BalanceRaw", C::BalanceRaw(t), p),
        1 => ("CallName", C::CallName(t), p),
        2 => ("EventName", C::EventName(t), p),
        3 => ("EnumVariantName", C::EnumVariantName(t), p),
        4 => ("FieldName", C::FieldName(t), p),
        5 => ("Nonce", C::Nonce(t), p),
        6 => ("PalletName", C::PalletName(t), p),
        7 => ("SpecName", C::SpecName(t), p),
        8 => ("Text", C::Text(t), p),
        9 => ("TipAsset", C::TipAsset(t), p),
        10 => ("TxVersion", C::TxVersion(t), p),
        11 => ("Id", C::Id(id(&t)), p),
        12 => ("PublicEd25519", C::PublicEd25519(id(&t)), p),
        13 => ("PublicSr25519", C::PublicSr25519(id(&t)), p),
        14 => ("PublicEcdsa", C::PublicEcdsa(id(&t)), p),
        15 => ("FieldNumber", C::FieldNumber(n), Pay::Count(n)),
        16 => ("CompositeAnnounced", C::CompositeAnnounced(n), Pay::Count(n)),
        17 => ("TupleAnnounced", C::TupleAnnounced(n), Pay::Count(n)),
        18 => ("SequenceAnnounced", C::SequenceAnnounced { len: n, element_info_flat: elem }, Pay::Count(n)),
        19 => {
            let v = cm::text(r);
            ("NameSpecVersion", C::NameSpecVersion { name: t.clone(), version: v.clone() }, Pay::Chain(t, v))
        }
        20 => {
            let b = cm::some_bytes(r);
            let text = std::str::from_utf8(&b).ok().map(|x| x.to_string());
            ("SequenceU8", C::SequenceU8 { hex: cm::hex(&b), text, element_info_flat: elem }, Pay::Bytes(b))
        }
        21 => ("EmptyEnum", C::EmptyEnum, Pay::Nothing),
        22 => ("EnumAnnounced", C::EnumAnnounced, Pay::Nothing),
        _ => {
            use substrate_parser::additional_types::Era;
            let (a, b) = (r.uint(64) as u64, r.uint(64) as u64);
            ("Era", C::Era(Era::Mortal(a, b)), Pay::Era(Some((a, b))))
        }
    }
}

/// Of what meaning each number, text and hash is shown.
fn meanings(v: impl Iterator<Item = (&'static str, String)>) -> Vec<(&'static str, String)> {
    v.filter(|(k, _)| {
        matches!(
            *k,
            "Balance" | "BalanceRaw" | "Tip" | "TipAsset" | "Nonce" | "NameSpecVersion" | "SpecName" | "TxVersion" | "GenesisHash" | "BlockHash"
                | "PrimitiveU8" | "PrimitiveU16" | "PrimitiveU32" | "PrimitiveU64" | "PrimitiveU128" | "Text" | "H256"
        )
    })
    .collect()
}
fn shown(c: &ExtendedCard, s: &ShortSpecs) -> (&'static str, String) {
    let k = cm::kind_of(&c.parser_card);
    let text = match &c.parser_card {
        // the integer behind the formatted number
        ParserCard::Balance(m) | ParserCard::Tip(m) => {
            let e = super::exact::PREFIXES.iter().find(|(p, _)| m.units.len() == p.len() + s.unit.len() && m.units.starts_with(p) && m.units.ends_with(&s.unit)).map(|x| x.1);
            let d = m.number.split_once('.').map(|x| x.1.len()).unwrap_or(0) as i32;
            let mut digits = m.number.replace('.', "").trim_start_matches('0').to_string();
            let zeros = e.unwrap_or(0) - d + s.decimals as i32;
            if digits.is_empty() {
                digits.push('0');
            } else if zeros >= 0 {
                digits.push_str(&"0".repeat(zeros as usize));
            } else {
                for _ in 0..-zeros {
                    if digits.ends_with('0') {
                        digits.pop();
                    }
                }
            }
            digits
        }
        ParserCard::NameSpecVersion { name, version } => format!("{name:?} {version:?}"),
        _ => c.show().trim_start_matches(' ').split_once(": ").map(|x| x.1.to_string()).unwrap_or_default(),
    };
    (k, text)
}
fn expected(m: &MC) -> (&'static str, String) {
    let t = match &m.pay {
        Pay::Money(v) => v.to_string(),
        Pay::Chain(n, v) => format!("{n:?} {v:?}"),
        Pay::Text(t) => t.clone(),
        _ => String::new(),
    };
    (m.kind, t)
}

/// C17: which numbers are shown as currency, and the numbers are not touched.
fn c17_cards(run: &Runner) {
    let compare = |want: &[MC], got: &[ExtendedCard], specs: &ShortSpecs, st: &mut Local, about: &dyn Fn() -> String| {
        let w = meanings(want.iter().map(expected));
        let g = meanings(got.iter().map(|c| shown(c, specs)));
        for (i, (a, b)) in w.iter().zip(&g).enumerate() {
            if a != b {
                st.fail(format!("item {i} shown as {b:?} instead of {a:?}; {}", about()));
            }
            st.class(a.0);
        }
        if w.len() != g.len() {
            st.fail(format!("{} numbers, texts and hashes instead of {}; {}", g.len(), w.len(), about()));
        }
        w.iter().any(|x| !x.0.starts_with("Primitive") && x.0 != "Text" && x.0 != "H256")
    };
    run.stage("currency", run.cfg.n(40_000), |r, _, st| {
        let (e, src) = if r.chance(1, 2) { (cm::extended(r, 0), "synthetic") } else {
            match item(r) {
                Some(x) => x,
                None => return,
            }
        };
        let (money, specs) = (r.chance(1, 2), cm::short_specs(r));
        let specs = ShortSpecs { unit: "DOT".into(), ..specs };
        let any = compare(&cm::of_ext(&e, 0, money, "n"), &e.card(0, money, &specs, "n"), &specs, st, &|| report(&e, src));
        if any {
            st.eval(mix(hash_debug(&e), money as u64));
        } else {
            st.eval_trivial();
        }
        st.sample(|| cut(e.show(0, money, &specs, "n"), 400));
    });
    // whole way: data and metadata in, cards out
    run.stage("transactions-shown", run.cfg.n(10_000), |r, c, st| {
        let t = any_tx_world(r, 30);
        let Some(x) = gen_tx(&t, r) else { return };
        let d = x.marked();
        let O::Ok(w) = m2::marked_tx(&x.meta, &d, x.genesis) else { return };
        let specs = ShortSpecs { unit: "DOT".into(), ..cm::short_specs(r) };
        let p = substrate_parser::parse_transaction::<&[u8], (), Meta>(&&d[..], &mut (), &x.meta, x.genesis);
        let Ok(p) = p else { return };
        let p = p.card(&specs, "n");
        let about = || format!("{} of {}", hexs(&d), t.src);
        let want: Vec<MC> = w.ext.iter().flat_map(|e| cm::of_ext(e, 0, true, "n")).collect();
        let mut any = compare(&want, &p.extensions, &specs, st, &about);
        if let (Ok(w), Ok(g)) = (&w.call, &p.call_result) {
            any |= compare(&cm::of_call(w, 0, "n"), g, &specs, st, &about);
        }
        if any {
            st.eval(mix(hash_bytes(&d), c));
        }
    });
    // every tag, width, pallet, depth of wrapping and display setting
    run.stage("pallets", 1, |r, _, st| {
        use substrate_parser::cards::{FieldData, Info, PalletSpecificData, ParsedData as P, VariantData};
        let specs = ShortSpecs { base58prefix: 42, decimals: 10, unit: "DOT".into() };
        let plain = |data: P| ExtendedData { data, info: vec![] };
        let field = |name: Option<&str>, data: P| FieldData { field_name: name.map(|x| x.into()), type_name: None, field_docs: String::new(), data: plain(data) };
        let tags = [U::None, U::Balance, U::Tip, U::TipAsset, U::Nonce, U::SpecVersion, U::TxVersion];
        for pallet in ["Balances", "Staking", "System", "balances", "Balance", "Stakings", "BALANCES", "Balances ", "", "NominationPools", "Assets", "Call"] {
            for inner in [None, Some("Balances"), Some("Treasury")] {
                for tag in &tags {
                    for width in 0..5 {
                        for wrap in 0..6 {
                            let v = r.uint([8, 16, 32, 64, 128][width]);
                            let leaf = |s: &U| match width {
                                0 => P::PrimitiveU8 { value: v as u8, specialty: s.clone() },
                                1 => P::PrimitiveU16 { value: v as u16, specialty: s.clone() },
                                2 => P::PrimitiveU32 { value: v as u32, specialty: s.clone() },
                                3 => P::PrimitiveU64 { value: v as u64, specialty: s.clone() },
                                _ => P::PrimitiveU128 { value: v, specialty: s.clone() },
                            };
                            let x = leaf(tag);
                            let x = match wrap {
                                0 => x,
                                1 => P::Composite(vec![field(None, x)]),
                                2 => P::Composite(vec![field(Some("a"), leaf(&U::Balance)), field(Some("b"), x)]),
                                3 => P::Tuple(vec![plain(x), plain(leaf(&U::Balance))]),
                                4 => P::Variant(VariantData { variant_name: "V".into(), variant_docs: String::new(), fields: vec![field(None, x)] }),
                                _ => P::SequenceRaw(substrate_parser::cards::SequenceRawData { element_info: vec![], data: vec![x, leaf(&U::Balance)] }),
                            };
                            let make = |name: &str, fields| PalletSpecificData {
                                pallet_info: Info { docs: String::new(), path: scale_info::Path { segments: vec![] } },
                                variant_docs: String::new(),
                                pallet_name: name.into(),
                                variant_name: "v".into(),
                                fields,
                            };
                            let fields = match inner {
                                None => vec![field(Some("x"), x)],
                                Some(n) => vec![field(Some("call"), P::Call(Call(make(n, vec![field(None, x)])))), field(Some("y"), leaf(&U::Balance))],
                            };
                            let call = Call(make(pallet, fields));
                            let got = call.card(0, &specs, "n");
                            compare(&cm::of_call(&call, 0, "n"), &got, &specs, st, &|| format!("call in pallet {pallet:?}, inside {inner:?}, {tag:?} of width {width} wrapped {wrap}"));
                            let event = Event(call.0.clone());
                            let got = event.card(0, &specs, "n");
                            compare(&cm::of_call(&call, 0, "n"), &got, &specs, st, &|| format!("event in pallet {pallet:?}, inside {inner:?}, {tag:?} of width {width} wrapped {wrap}"));
                            st.eval(mix(hash_bytes(format!("{call:?}").as_bytes()), 1));
                        }
                    }
                }
            }
        }
    });
}

fn c17(run: &Runner) {
    super::types::tags_stages(run);
    super::tx::tags_stages(run);
    c17_cards(run);
}

fn c22(run: &Runner) {
    super::types::error_stages(run);
    super::tx::error_stages(run);
    super::storage::error_stages(run);
    super::texts::stage(run);
    super::types::short_error_stages(run);
}

pub fn c25_cards(run: &Runner) {
    run.stage("cards", run.cfg.n(60_000), |r, _, st| {
        let Some((e, src)) = item(r) else { return };
        let (indent, money, specs, name) = (indent_of(r), r.chance(1, 2), cm::short_specs(r), r.pick(&NAMES));
        let want = cm::of_ext(&e, indent, money, name);
        let got = e.card(indent, money, &specs, name);
        let about = || report(&e, src);
        if want.len() != got.len() {
            st.fail(format!("{} cards instead of {}{}", got.len(), want.len(), about()));
            return;
        }
        let mut any = false;
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            let info = cm::flat(&g.info_flat);
            if info != w.info {
                st.fail(format!("card {i} ({}) has information {info:?} instead of {:?}{}", w.kind, w.info, about()));
            }
            let elem = cm::elem_of(&g.parser_card);
            if elem != w.elem {
                st.fail(format!("card {i} ({}) has element information {elem:?} instead of {:?}{}", w.kind, w.elem, about()));
            }
            let text = g.show_with_docs();
            if text != format!("{}{}", g.show(), cm::docs_tail(w)) {
                st.fail(format!("card {i} ({}): text with documentation {text:?}, added should be {:?}{}", w.kind, cm::docs_tail(w), about()));
            }
            any |= !w.info.is_empty() || !w.elem.is_empty();
            st.class_n("card informations", w.info.len() as u64);
            st.class_n("card element informations", w.elem.len() as u64);
        }
        if any {
            st.eval(mix(hash_debug(&e), indent as u64));
        } else {
            st.eval_trivial();
        }
    });
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C15",
            rule: "Parsed items of all kinds (synthetic ones of any shape, and decoded from generated and real types, calls and transactions) are turned into cards with random settings; kinds, values, names, counts, order and indents are compared with an independent walk of the item; shifting the indent must shift all cards; transactions must give the cards of their parts. Non-trivial: at least one card; distinct by (item value, indent).",
            level: "exploration",
            assumptions: &["indents leave room for the nesting in 32 bits"],
            min_distinct: 30_000,
            run: c15,
        },
        Spec {
            id: "C16",
            rule: "Texts with and without documentation of cards of synthetic and decoded items and of directly made cards of every kind are compared with an independent rendering (own decimal, hexadecimal, bit, currency and SS58 code); addresses for all 65536 prefixes and keys of all kinds, with the picture compared with that of the key. Distinct by (text, prefix).",
            level: "exploration",
            assumptions: &["plot_icon draws the picture of a key; blake2 of sp-crypto-hashing is right"],
            min_distinct: 60_000,
            run: c16,
        },
        Spec {
            id: "C17",
            rule: "Type descriptions dense in documented and nearly documented field names, type names, extension identifiers and wrappers; tags of every item are compared with a reference propagation of hints; cards of synthetic, decoded and transaction items: what each number, text and hash is shown as, and the number itself, for all pallets and display settings. Non-trivial: at least one tagged item; distinct by (data, description).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 60_000,
            run: c17,
        },
        Spec {
            id: "C22",
            rule: "Truncated, corrupted, overlong, mislabelled and random data for generated, real and broken type descriptions, transactions, extrinsics and storage entries; the error must equal the one a reference decoder finds first, and its text must state its values. Non-trivial: an error; distinct by (data, description).",
            level: "exploration",
            assumptions: &[],
            min_distinct: 100_000,
            run: c22,
        },
    ]
}
