//! banyan-utils: tag expressions, tag indexes, key sequences, digests, and tag queries on trees
use crate::engine::*;
use crate::model::{self, cb_head, cb_str, cb_u64, gen_cache, gen_config, gen_off, gen_secrets, HStore, Val};
use crate::walker::{Cv, P};
use crate::{check, check_eq, fail};
use banyan::index::{CompactSeq, Index, Summarizable};
use banyan::query::{AllQuery, AndQuery, EmptyQuery, OffsetRangeQuery, OrQuery, QueryExt};
use banyan::store::BranchCache;
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree};
use banyan_utils::ipfs::Base64Blob;
use banyan_utils::tag_index::{map_to_index_set, Dnf, Expression, Tag, TagIndex, TagSet};
use banyan_utils::tags::{DnfQuery, Key, KeySeq, Sha256Digest, TT};
use futures::executor::block_on;
use futures::TryStreamExt;
use libipld::cbor::DagCborCodec;
use libipld::codec::Codec;
use libipld::Cid;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C22",
        rule: "random expressions (depth <= 4, up to 6 tags, built with the operators, the constructors or the enum itself); truth tables over all tag subsets, the prime implicants of the function as the expected normal form, and an independent parser of the printed form. Non-trivial: an expression using both operators, at least 3 tags and with at least 2 terms in normal form",
        run: c22,
        quick: 300000,
        thorough: 3000000,
        threads: 0,
        regress: &[
            Regress { name: "dnf-two-redundant-terms", f: r_dnf },
            Regress { name: "print-nested-single-or", f: r_print },
        ],
        assumptions: &["And/Or have at least one operand (the empty ones have no normal form)"],
        level: "exploration",
    },
    Prop {
        id: "C23",
        rule: "random tag set sequences, key sequences, digests and base64 blobs, round tripped through dag-cbor, json and text, plus generated malformed or non-canonical encodings, which must be rejected or decode to what they say. Non-trivial: at least 3 elements with a shared and an unshared tag",
        run: c23,
        quick: 300000,
        thorough: 1000000,
        threads: 0,
        regress: &[
            Regress { name: "unsorted-tag-table", f: r_unsorted },
            Regress { name: "key-seq-lengths", f: r_lengths },
        ],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C24",
        rule: "random histories of tagged, timestamped events (packed and unpacked appends, pack, reload, retain), queries combining tag/time terms with offset ranges, in all read forms, against direct evaluation; the summaries of all nodes against the keys below. Non-trivial: partial result on a tree of at least 3 nodes",
        run: c24,
        quick: 30000,
        thorough: 300000,
        threads: 0,
        regress: &[
            Regress { name: "term-with-unknown-tag", f: r_unknown },
            Regress { name: "untagged-events", f: r_untagged },
        ],
        assumptions: &["every event has at least one tag (see KNOWN_FINDINGS: untagged events)"],
        level: "exploration",
    },
];

const TAGS: [&str; 12] = [
    "a",
    "b",
    "c'",
    "",
    "ä & b",
    "we.like.long.identifiers.because.they.seem.professional",
    "ab",
    "'",
    "x | y",
    "aaaaaaaaaaaaaaaaaaaaaa",
    "aaaaaaaaaaaaaaaaaaaaaaa",
    "z",
];

/// any number of different tags, of which the first are unusual ones
fn tag(i: u32) -> Tag {
    match TAGS.get(i as usize) {
        Some(t) => Tag::from(*t),
        None if i % 7 == 0 => Tag::from(format!("{:0>40}", i)),
        None if i % 97 == 0 => Tag::from(format!("{}{}", "ö".repeat(150), i)),
        None => Tag::from(format!("t{}", i)),
    }
}

fn tagset(it: impl IntoIterator<Item = u32>) -> TagSet {
    it.into_iter().map(tag).collect()
}

// ------------------------------------------------------------------------------------------ C22

#[derive(Debug, Clone)]
enum Ex {
    L(u32),
    And(Vec<Ex>),
    Or(Vec<Ex>),
}

/// truth table of a literal over all subsets of 6 tags
fn lit(i: u32) -> u64 {
    let mut t = 0;
    for s in 0..64u64 {
        if s >> i & 1 == 1 {
            t |= 1 << s;
        }
    }
    t
}

impl Ex {
    fn truth(&self) -> u64 {
        match self {
            Ex::L(i) => lit(*i),
            Ex::And(v) => v.iter().fold(u64::MAX, |a, x| a & x.truth()),
            Ex::Or(v) => v.iter().fold(0, |a, x| a | x.truth()),
        }
    }
    fn build(&self, s: &mut Src) -> Expression {
        match self {
            Ex::L(i) => {
                let t = tag(*i);
                if s.bool() {
                    Expression::literal(t)
                } else {
                    Expression::Literal(t)
                }
            }
            Ex::And(v) => {
                let v: Vec<_> = v.iter().map(|x| x.build(s)).collect();
                match s.below(3) {
                    0 => Expression::and(v),
                    1 => Expression::And(v),
                    _ => v.into_iter().reduce(|a, b| a & b).unwrap(),
                }
            }
            Ex::Or(v) => {
                let v: Vec<_> = v.iter().map(|x| x.build(s)).collect();
                match s.below(3) {
                    0 => Expression::or(v),
                    1 => Expression::Or(v),
                    _ => v.into_iter().reduce(|a, b| a | b).unwrap(),
                }
            }
        }
    }
    fn shuffle(&self, s: &mut Src) -> Ex {
        let mix = |v: &Vec<Ex>, s: &mut Src, and: bool| {
            let mut v: Vec<Ex> = v.iter().map(|x| x.shuffle(s)).collect();
            for i in (1..v.len()).rev() {
                v.swap(i, s.below(i as u64 + 1) as usize);
            }
            if v.len() >= 3 && s.bool() {
                let tail = v.split_off(v.len() - 2);
                v.push(if and { Ex::And(tail) } else { Ex::Or(tail) });
            }
            if s.chance(1, 4) {
                // idempotence
                let x = v[s.below(v.len() as u64) as usize].clone();
                v.push(x);
            }
            v
        };
        match self {
            Ex::L(i) => Ex::L(*i),
            Ex::And(v) => Ex::And(mix(v, s, true)),
            Ex::Or(v) => Ex::Or(mix(v, s, false)),
        }
    }
    fn has(&self) -> (bool, bool) {
        match self {
            Ex::L(_) => (false, false),
            Ex::And(v) => (true, v.iter().any(|x| x.has().1)),
            Ex::Or(v) => (v.iter().any(|x| x.has().0), true),
        }
    }
    fn mentioned(&self) -> u64 {
        match self {
            Ex::L(i) => 1 << i,
            Ex::And(v) | Ex::Or(v) => v.iter().fold(0, |a, x| a | x.mentioned()),
        }
    }
}

fn gen_ex(s: &mut Src, depth: u32, budget: &mut u32) -> Ex {
    *budget = budget.saturating_sub(1);
    let k = if depth == 0 || *budget == 0 { 0 } else { s.weighted(&[2, 3, 3]) };
    match k {
        0 => Ex::L(s.below(6) as u32),
        k => {
            let mut v = vec![];
            let n = s.weighted(&[1, 6, 3, 2]) + 1;
            for _ in 0..n {
                v.push(gen_ex(s, depth - 1, budget));
            }
            if k == 1 {
                Ex::And(v)
            } else {
                Ex::Or(v)
            }
        }
    }
}

fn expr_truth(e: &Expression) -> R<u64> {
    Ok(match e {
        Expression::Literal(t) => match TAGS[..6].iter().position(|x| *x == t.as_str()) {
            Some(i) => lit(i as u32),
            None => fail!("tag", "unknown tag {:?} in result", t),
        },
        Expression::And(v) => {
            let mut t = u64::MAX;
            for x in v {
                t &= expr_truth(x)?;
            }
            t
        }
        Expression::Or(v) => {
            let mut t = 0;
            for x in v {
                t |= expr_truth(x)?;
            }
            t
        }
    })
}

fn dnf_truth(d: &Dnf) -> R<u64> {
    let mut t = 0;
    for term in &d.0 {
        let mut x = u64::MAX;
        for tag in term.iter() {
            x &= expr_truth(&Expression::Literal(tag.clone()))?;
        }
        t |= x;
    }
    Ok(t)
}

/// minimal satisfying sets of a monotone function
fn primes(t: u64) -> BTreeSet<TagSet> {
    let mut res = BTreeSet::new();
    for s in 0..64u64 {
        if t >> s & 1 == 1 && (0..6).all(|i| s >> i & 1 == 0 || t >> (s & !(1 << i)) & 1 == 0) {
            res.insert(tagset((0..6).filter(|i| s >> i & 1 == 1)));
        }
    }
    res
}

/// `&` binds stronger than `|`, literals in single quotes with '' for a quote
fn parse_ex(text: &str) -> R<Ex> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let t = parse_or(&c, &mut i)?;
    check!(i == c.len(), "print", "trailing text in {:?} at {}", text, i);
    Ok(t)
}
fn parse(text: &str) -> R<u64> {
    let e = parse_ex(text)?;
    check!(e.mentioned() < 64, "tag", "unknown tag in result");
    Ok(e.truth())
}
fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i] == ' ' {
        *i += 1;
    }
}
fn parse_or(c: &[char], i: &mut usize) -> R<Ex> {
    let mut v = vec![parse_and(c, i)?];
    loop {
        ws(c, i);
        if c.get(*i) == Some(&'|') {
            *i += 1;
            v.push(parse_and(c, i)?);
        } else {
            return Ok(Ex::Or(v));
        }
    }
}
fn parse_and(c: &[char], i: &mut usize) -> R<Ex> {
    let mut v = vec![parse_atom(c, i)?];
    loop {
        ws(c, i);
        if c.get(*i) == Some(&'&') {
            *i += 1;
            v.push(parse_atom(c, i)?);
        } else {
            return Ok(Ex::And(v));
        }
    }
}
fn parse_atom(c: &[char], i: &mut usize) -> R<Ex> {
    ws(c, i);
    match c.get(*i) {
        Some('(') => {
            *i += 1;
            let t = parse_or(c, i)?;
            ws(c, i);
            check!(c.get(*i) == Some(&')'), "print", "missing bracket in {}", c.iter().collect::<String>());
            *i += 1;
            Ok(t)
        }
        Some('\'') => {
            *i += 1;
            let mut s = String::new();
            loop {
                match c.get(*i) {
                    Some('\'') if c.get(*i + 1) == Some(&'\'') => {
                        s.push('\'');
                        *i += 2;
                    }
                    Some('\'') => {
                        *i += 1;
                        break;
                    }
                    Some(x) => {
                        s.push(*x);
                        *i += 1;
                    }
                    None => fail!("print", "unterminated literal in {}", c.iter().collect::<String>()),
                }
            }
            Ok(Ex::L(tag_no(&s)?))
        }
        x => fail!("print", "unexpected {:?} in {}", x, c.iter().collect::<String>()),
    }
}

// many tags: terms as bit sets of up to 64 tags. The minimal normal form of an expression without negation is unique,
// so it stands for its meaning
const WIDE: u32 = 60;

fn tag_no(t: &str) -> R<u32> {
    match (0..WIDE).find(|i| tag(*i).as_str() == t) {
        Some(i) => Ok(i),
        None => fail!("tag", "unknown tag {:?} in result", t),
    }
}

fn absorb(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_by_key(|x| (x.count_ones(), *x));
    v.dedup();
    let mut res: Vec<u64> = vec![];
    for x in v {
        if !res.iter().any(|y| y & x == *y) {
            res.push(x);
        }
    }
    res.sort();
    res
}

fn times(a: &[u64], b: &[u64]) -> Vec<u64> {
    absorb(a.iter().flat_map(|x| b.iter().map(move |y| x | y)).collect())
}

impl Ex {
    /// the terms of the minimal normal form, unless there are too many on the way
    fn terms(&self) -> Option<Vec<u64>> {
        match self {
            Ex::L(i) => Some(vec![1 << i]),
            Ex::And(v) => v.iter().try_fold(vec![0], |a, x| {
                let b = x.terms()?;
                (a.len() * b.len() <= 20_000).then(|| times(&a, &b))
            }),
            Ex::Or(v) => v.iter().try_fold(vec![], |mut a, x| {
                a.extend(x.terms()?);
                (a.len() <= 4000).then(|| absorb(a))
            }),
        }
    }
}

fn ex_of(e: &Expression) -> R<Ex> {
    Ok(match e {
        Expression::Literal(t) => Ex::L(tag_no(t)?),
        Expression::And(v) => Ex::And(v.iter().map(ex_of).collect::<R<_>>()?),
        Expression::Or(v) => Ex::Or(v.iter().map(ex_of).collect::<R<_>>()?),
    })
}

fn masks(d: &Dnf) -> R<Vec<u64>> {
    let mut v = vec![];
    for t in &d.0 {
        let mut m = 0;
        for x in t.iter() {
            m |= 1 << tag_no(x)?;
        }
        v.push(m);
    }
    v.sort();
    Ok(v)
}

fn gen_wide(s: &mut Src, depth: u32, pool: u64, budget: &mut u32) -> Ex {
    *budget = budget.saturating_sub(1);
    let k = if depth == 0 || *budget == 0 { 0 } else { s.weighted(&[2, 3, 3]) };
    if k == 0 {
        return Ex::L(s.below(pool) as u32);
    }
    let n = if s.chance(1, 5) { s.usize(1, 20) } else { s.usize(1, 5) };
    let v = (0..n).map(|_| gen_wide(s, depth - 1, pool, budget)).collect();
    if k == 1 {
        Ex::And(v)
    } else {
        Ex::Or(v)
    }
}

/// expressions of many tags, long operators and deep nesting
fn wide(s: &mut Src, obs: &mut Obs) -> R {
    let pool = s.range(2, WIDE as u64);
    let (depth, mut budget) = if s.chance(1, 4) { (40, 60) } else { (3, 60) };
    let ex = gen_wide(s, depth, pool, &mut budget);
    let mut budget = 12;
    let ex3 = gen_wide(s, 2, pool, &mut budget);
    let (Some(t), Some(t3)) = (ex.terms(), ex3.terms()) else { return Ok(()) };
    if t.len() * t3.len() > 4000 {
        return Ok(());
    }
    let e = ex.build(s);
    obs.note(|| format!("{}", e));
    obs.label("many tags");
    let same = |what: &str, x: &Ex| -> R {
        check_eq!(x.terms().unwrap_or_default(), t, what, "meaning of {}", e);
        Ok(())
    };
    same("construct", &ex_of(&e)?)?;
    same("print", &parse_ex(&e.to_string())?)?;
    let simple = e.simplify();
    same("simplify", &ex_of(&simple)?)?;
    check!(simple_shape(&simple), "simplify", "{:?} is not simplified", simple);
    let d = e.clone().dnf();
    check_eq!(masks(&d)?, t, "minimal", "normal form of {}", e);
    let back = d.clone().expression();
    same("expression", &ex_of(&back)?)?;
    same("print", &parse_ex(&back.to_string())?)?;
    let sh = ex.shuffle(s).build(s);
    check_eq!(sh.clone().dnf(), d, "order", "normal form of {} and {}", e, sh);
    let d3 = ex3.build(s).dnf();
    let mut either = t.clone();
    either.extend(&t3);
    check_eq!(masks(&(d.clone() & d3.clone()))?, times(&t, &t3), "and", "{} & {:?}", e, d3);
    check_eq!(masks(&(d3.clone() & d.clone()))?, times(&t, &t3), "and", "{:?} & {}", d3, e);
    check_eq!(masks(&(d.clone() | d3.clone()))?, absorb(either.clone()), "or", "{} | {:?}", e, d3);
    check_eq!(masks(&(d3.clone() | d))?, absorb(either), "or", "{:?} | {}", d3, e);
    obs.nontrivial = t.len() >= 3 && t.iter().any(|x| x.count_ones() >= 3);
    Ok(())
}

fn simple_shape(e: &Expression) -> bool {
    match e {
        Expression::Literal(_) => true,
        Expression::And(v) => {
            v.len() > 1 && v.iter().all(|x| !matches!(x, Expression::And(_)) && simple_shape(x))
        }
        Expression::Or(v) => {
            v.len() > 1 && v.iter().all(|x| !matches!(x, Expression::Or(_)) && simple_shape(x))
        }
    }
}

fn c22(s: &mut Src, obs: &mut Obs) -> R {
    if s.chance(1, 6) {
        return wide(s, obs);
    }
    let mut budget = 14;
    let ex = gen_ex(s, 4, &mut budget);
    let e = ex.build(s);
    obs.note(|| format!("{} = {:?}", e, e));
    let t = ex.truth();
    check_eq!(expr_truth(&e)?, t, "construct", "truth table of the constructed {}", e);
    // printing
    check_eq!(parse(&e.to_string())?, t, "print", "meaning of the printed form {}", e);
    // simplify
    let simple = e.simplify();
    check_eq!(expr_truth(&simple)?, t, "simplify", "meaning of simplified {}: {}", e, simple);
    check!(simple_shape(&simple), "simplify", "{:?} is not simplified", simple);
    check_eq!(parse(&simple.to_string())?, t, "print", "meaning of the printed simplified form {}", simple);
    // normal form
    let d = e.clone().dnf();
    let want = primes(t);
    check_eq!(dnf_truth(&d)?, t, "meaning", "meaning of the normal form of {}", e);
    check_eq!(d.0, want, "minimal", "normal form of {}", e);
    check_eq!(Dnf::from(e.clone()), d, "convert", "Dnf::from {}", e);
    // conversion back
    let back = d.clone().expression();
    check_eq!(expr_truth(&back)?, t, "expression", "meaning of the normal form of {} as expression {}", e, back);
    check_eq!(Expression::from(d.clone()), back, "convert", "Expression::from");
    check_eq!(parse(&back.to_string())?, t, "print", "meaning of the printed normal form {}", back);
    check_eq!(back.clone().dnf(), d, "idempotent", "normal form of the normal form {}", back);
    // order and grouping
    let sh = ex.shuffle(s);
    check_eq!(sh.truth(), t, "harness", "shuffled expression");
    let e2 = sh.build(s);
    obs.note(|| format!("reordered {}", e2));
    check_eq!(e2.clone().dnf(), d, "order", "normal form of {} and {}", e, e2);
    // combining
    let mut budget = 8;
    let ex3 = gen_ex(s, 3, &mut budget);
    let e3 = ex3.build(s);
    let d3 = e3.clone().dnf();
    for (a, b) in [(&d, &d3), (&d3, &d)] {
        check_eq!((a.clone() & b.clone()).0, primes(t & ex3.truth()), "and", "{} & {}", e, e3);
        check_eq!((a.clone() | b.clone()).0, primes(t | ex3.truth()), "or", "{} | {}", e, e3);
    }
    check_eq!((e.clone() & e3.clone()).dnf().0, primes(t & ex3.truth()), "and", "expression {} & {}", e, e3);
    check_eq!((e.clone() | e3.clone()).dnf().0, primes(t | ex3.truth()), "or", "expression {} | {}", e, e3);
    // applying it to an index that contains every tag set
    if s.chance(1, 8) {
        let all: Vec<TagSet> = (0..64u64).map(|m| tagset((0..6).filter(|i| m >> i & 1 == 1))).collect();
        let got = TagIndex::from_elements(&all).matching(d.clone());
        let want: Vec<usize> = (0..64).filter(|m| t >> m & 1 == 1).collect();
        check_eq!(got, want, "matching", "tag sets matching {}", e);
    }
    let (a, o) = ex.has();
    obs.label_if(d.0.len() > 4, "more than 4 terms");
    obs.nontrivial = a && o && ex.mentioned().count_ones() >= 3 && d.0.len() >= 2;
    Ok(())
}

fn r_dnf() -> R {
    let l = |x: &str| Expression::literal(x.into());
    let e = (l("a") & l("b")) | (l("a") & l("c'")) | l("a");
    check_eq!(e.clone().dnf(), l("a").dnf(), "minimal", "normal form of {}", e);
    Ok(())
}

fn r_print() -> R {
    let l = |x: &str| Expression::literal(x.into());
    let e = Expression::And(vec![Expression::Or(vec![Expression::Or(vec![l("a"), l("b")])]), l("c'")]);
    check_eq!(parse(&e.to_string())?, expr_truth(&e)?, "print", "meaning of the printed form {}", e);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23

fn gen_sets(s: &mut Src, min: usize, pool: u64) -> Vec<Vec<u32>> {
    let mut v = vec![];
    if min == 0 && pool > 12 {
        // many tags, many elements
        let n = s.usize(1, 500);
        let mut sub = Src::random(s.derived().next());
        for _ in 0..n {
            let k = if sub.chance(1, 20) { sub.usize(0, 100) } else { sub.usize(0, 6) };
            v.push((0..k).map(|_| sub.below(pool) as u32).collect());
        }
        return v;
    }
    while v.len() < min || (v.len() < 24 && s.more(6)) {
        let mut t = vec![];
        let n = s.weighted(&[2, 6, 4, 2, 1, 1]);
        for _ in 0..n {
            t.push(s.below(pool) as u32);
        }
        v.push(t);
    }
    v
}

fn cb_raw_index(tags: &[String], elements: &[Vec<u64>]) -> Vec<u8> {
    let mut out = vec![0x82];
    cb_head(&mut out, 4, tags.len() as u64);
    tags.iter().for_each(|t| cb_str(&mut out, t));
    cb_head(&mut out, 4, elements.len() as u64);
    for e in elements {
        cb_head(&mut out, 4, e.len() as u64);
        e.iter().for_each(|x| cb_u64(&mut out, *x));
    }
    out
}

/// what an encoded index says, taken literally
fn naive(tags: &[String], elements: &[Vec<u64>]) -> Option<Vec<TagSet>> {
    elements
        .iter()
        .map(|e| e.iter().map(|x| tags.get(*x as usize).map(|t| Tag::from(t.as_str()))).collect::<Option<TagSet>>())
        .collect()
}

fn read_cb_index(v: &Cv) -> Option<(Vec<String>, Vec<Vec<u64>>)> {
    let Cv::A(v) = v else { return None };
    let [Cv::A(t), Cv::A(e)] = &v[..] else { return None };
    let t = t.iter().map(|x| if let Cv::T(t) = x { Some(t.clone()) } else { None }).collect::<Option<_>>()?;
    let e = e
        .iter()
        .map(|x| {
            let Cv::A(x) = x else { return None };
            x.iter().map(|x| if let Cv::U(x) = x { Some(*x) } else { None }).collect::<Option<Vec<_>>>()
        })
        .collect::<Option<_>>()?;
    Some((t, e))
}

fn sorted_unique<T: Ord>(x: &[T]) -> bool {
    x.windows(2).all(|w| w[0] < w[1])
}

fn c23(s: &mut Src, obs: &mut Obs) -> R {
    match s.weighted(&[4, 2, 3, 1]) {
        0 => index_roundtrip(s, obs),
        1 => index_malformed(s, obs),
        2 => key_seq(s, obs),
        _ => digests(s, obs),
    }
}

fn check_index(what: &str, i: &TagIndex, sets: &[TagSet]) -> R {
    check_eq!(i.as_elements(), sets, "elements", "{} as_elements", what);
    check_eq!(i.iter_elements().collect::<Vec<_>>(), sets, "elements", "{} iter_elements", what);
    for (n, x) in sets.iter().enumerate() {
        check_eq!(i.get(n), Some(x.clone()), "get", "{} get({})", what, n);
    }
    check_eq!(i.get(sets.len()), None, "get", "{} get past the end", what);
    Ok(())
}

fn index_roundtrip(s: &mut Src, obs: &mut Obs) -> R {
    let pool = match s.weighted(&[400, 40, 1]) {
        0 => s.range(1, 12),
        1 => s.range(13, 600),
        _ => 70_000,
    };
    let mut sets: Vec<TagSet> = gen_sets(s, 0, pool).into_iter().map(tagset).collect();
    if pool == 70_000 {
        sets.insert(sets.len() / 2, tagset(0..pool as u32));
    }
    obs.label_if(pool > 255, "more than 255 tags");
    obs.label_if(pool > 65535, "more than 65535 tags");
    if pool <= 12 {
        obs.note(|| format!("tag sets {:?}", sets));
    }
    let i = TagIndex::from_elements(&sets);
    check_index("index", &i, &sets)?;
    // dag-cbor
    let bytes = DagCborCodec.encode(&i).must("encode")?;
    let cv = P::new(&bytes).item().map_err(|e| Fail::new("encoding", e))?;
    let Some((tags, elements)) = read_cb_index(&cv) else { fail!("encoding", "unexpected encoding {:?}", cv) };
    check!(sorted_unique(&tags), "encoding", "tags {:?} are not sorted", tags);
    let used: BTreeSet<String> = sets.iter().flat_map(|x| x.iter().map(|x| x.to_string())).collect();
    check_eq!(tags.iter().cloned().collect::<BTreeSet<_>>(), used, "encoding", "tag table");
    check_eq!(naive(&tags, &elements), Some(sets.clone()), "encoding", "encoded elements");
    let j: TagIndex = DagCborCodec.decode(&bytes).must("decode")?;
    check_eq!(j, i, "cbor", "dag-cbor round trip");
    check_index("decoded index", &j, &sets)?;
    // json
    let json = serde_json::to_string(&i).must("to json")?;
    let (tags, elements): (Vec<String>, Vec<Vec<u64>>) = serde_json::from_str(&json).must("json shape")?;
    check_eq!(naive(&tags, &elements), Some(sets.clone()), "json", "json elements of {}", json);
    let j: TagIndex = serde_json::from_str(&json).must("from json")?;
    check_eq!(j, i, "json", "json round trip of {}", json);
    // queries, with tags beyond the pool
    for _ in 0..3 {
        let terms: Vec<Vec<u32>> = gen_sets(s, 1, pool.max(12)).into_iter().take(4).collect();
        let dnf = Dnf(terms.iter().map(|t| tagset(t.iter().copied())).collect());
        let want: Vec<usize> = sets
            .iter()
            .enumerate()
            .filter(|(_, e)| dnf.0.iter().any(|t| t.iter().all(|x| e.iter().any(|y| y == x))))
            .map(|x| x.0)
            .collect();
        check_eq!(i.matching(dnf.clone()), want, "matching", "elements of {:?} matching {:?}", sets, dnf);
        check_eq!(j.matching(dnf.clone()), want, "matching", "elements of the decoded index matching {:?}", dnf);
        obs.label_if(!want.is_empty() && want.len() < sets.len(), "partial match");
    }
    // lookup in a table
    let table = tagset((0..12).filter(|_| s.bool()));
    let t = tagset((0..3).map(|_| s.below(12) as u32));
    let got = map_to_index_set(&table, &t).map(|x| x.iter().map(|i| table.as_ref()[*i as usize].clone()).collect::<TagSet>());
    let want = t.iter().all(|x| table.iter().any(|y| x == y)).then(|| t.clone());
    check_eq!(got, want, "lookup", "lookup of {:?} in {:?}", t, table);
    let mut uses: BTreeMap<Tag, u32> = BTreeMap::new();
    sets.iter().flat_map(|x| x.iter()).for_each(|t| *uses.entry(t.clone()).or_default() += 1);
    let shared = uses.values().any(|n| *n > 1);
    let unshared = uses.values().any(|n| *n == 1);
    obs.nontrivial = sets.len() >= 3 && shared && unshared;
    Ok(())
}

fn index_malformed(s: &mut Src, obs: &mut Obs) -> R {
    let mut tags: Vec<String> = (0..12).filter(|_| s.bool()).map(|i| TAGS[i].to_string()).collect();
    tags.sort();
    match s.below(4) {
        0 => {}
        1 if tags.len() > 1 => {
            let i = s.below(tags.len() as u64 - 1) as usize;
            tags.swap(i, i + 1);
        }
        2 if !tags.is_empty() => {
            let i = s.below(tags.len() as u64) as usize;
            let t = tags[i].clone();
            let at = s.below(tags.len() as u64 + 1) as usize;
            tags.insert(at, t);
        }
        _ => {
            for i in (1..tags.len()).rev() {
                tags.swap(i, s.below(i as u64 + 1) as usize);
            }
        }
    }
    let mut elements: Vec<Vec<u64>> = vec![];
    while elements.len() < 12 && s.more(3) {
        let mut e = vec![];
        while e.len() < 6 && s.more(2) {
            e.push(if s.chance(1, 12) {
                *s.pick(&[tags.len() as u64, u32::MAX as u64, 1 << 32, u64::MAX, tags.len() as u64 + 1])
            } else {
                s.below(tags.len().max(1) as u64)
            });
        }
        elements.push(e);
    }
    let want = naive(&tags, &elements);
    let canonical = sorted_unique(&tags) && elements.iter().all(|e| sorted_unique(e));
    obs.note(|| format!("tags {:?} elements {:?} canonical {}", tags, elements, canonical));
    let bytes = cb_raw_index(&tags, &elements);
    let json = serde_json::to_string(&(&tags, &elements)).unwrap();
    let from_cbor: anyhow::Result<TagIndex> = DagCborCodec.decode(&bytes);
    let from_json: Result<TagIndex, _> = serde_json::from_str(&json);
    for (what, got) in [("cbor", from_cbor.map_err(|e| e.to_string())), ("json", from_json.map_err(|e| e.to_string()))] {
        match (&want, got) {
            (Some(w), Ok(i)) => {
                check_index(what, &i, w)?;
                obs.label("accepted");
            }
            (Some(_), Err(e)) => {
                check!(!canonical, "rejected", "{} rejects the valid {:?} {:?}: {}", what, tags, elements, e);
                obs.label("non canonical rejected");
            }
            (None, Ok(i)) => fail!("accepted", "{} accepts {:?} {:?} as {:?}", what, tags, elements, i),
            (None, Err(_)) => obs.label("bad index rejected"),
        }
    }
    // any damage to the bytes is an error or a consistent index
    let mut b = bytes;
    for _ in 0..s.usize(1, 3) {
        let i = s.below(b.len() as u64) as usize;
        match s.below(3) {
            0 => b[i] = s.below(256) as u8,
            1 => {
                b.remove(i);
            }
            _ => b.insert(i, s.below(256) as u8),
        }
        if b.is_empty() {
            break;
        }
    }
    if let Ok(i) = DagCborCodec.decode::<TagIndex>(&b) {
        let e = i.as_elements();
        check_index("damaged", &i, &e)?;
        if let Ok(cv) = P::new(&b).item() {
            if let Some((t, x)) = read_cb_index(&cv) {
                check_eq!(Some(e), naive(&t, &x), "damaged", "index decoded from {:?}", cv);
            }
        }
        obs.label("damaged accepted");
    }
    obs.nontrivial = elements.len() >= 2 && tags.len() >= 2;
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
struct Ev {
    lamport: u64,
    from: u64,
    to: u64,
    tags: BTreeSet<u32>,
}

impl Ev {
    fn key(&self) -> Key {
        let tags = tagset(self.tags.iter().copied());
        if self.from == self.to {
            Key::single(self.lamport, self.from, tags)
        } else {
            Key::range(self.from, self.to, tags)
        }
    }
    fn fold<'a>(mut it: impl Iterator<Item = &'a Ev>) -> Ev {
        let mut r = it.next().expect("not empty").clone();
        for x in it {
            r.lamport = r.lamport.min(x.lamport);
            r.from = r.from.min(x.from);
            r.to = r.to.max(x.to);
            r.tags.extend(x.tags.iter().copied());
        }
        r
    }
    fn json(&self) -> serde_json::Value {
        let tags = tagset(self.tags.iter().copied());
        serde_json::json!({
            "time": {"min_lamport": self.lamport, "min_time": self.from, "max_time": self.to},
            "tags": tags.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
        })
    }
}

fn key_seq(s: &mut Src, obs: &mut Obs) -> R {
    let sets = if s.chance(1, 20) {
        let pool = s.range(13, 600);
        gen_sets(s, 0, pool)
    } else {
        gen_sets(s, 1, 12)
    };
    let evs: Vec<Ev> = sets
        .into_iter()
        .map(|t| {
            let single = s.bool();
            let from = s.u64_any();
            Ev {
                lamport: if single { s.u64_any() } else { 0 },
                from,
                to: if single { from } else { from.max(s.u64_any()).max(from.saturating_add(1)) },
                tags: t.into_iter().collect(),
            }
        })
        .map(|mut e| {
            if e.from == e.to {
                return e;
            }
            e.lamport = 0;
            e
        })
        .collect();
    obs.note(|| format!("events {:?}", evs));
    let keys: Vec<Key> = evs.iter().map(|e| e.key()).collect();
    for (k, e) in keys.iter().zip(&evs) {
        let j = serde_json::to_value(k).must("to json")?;
        check_eq!(j, e.json(), "key", "key as json");
        let k2: Key = serde_json::from_value(j).must("from json")?;
        check_eq!(&k2, k, "key", "json round trip of a key");
    }
    let probe = |what: &str, q: &KeySeq| -> R {
        check_eq!(q.len(), keys.len(), "len", "{} len", what);
        check_eq!(q.count(), keys.len() as u64, "len", "{} count", what);
        check!(!q.is_empty(), "len", "{} is_empty", what);
        for (i, k) in keys.iter().enumerate() {
            check_eq!(q.get(i), Some(k.clone()), "get", "{} get({})", what, i);
        }
        check_eq!(q.get(keys.len()), None, "get", "{} get past the end", what);
        check_eq!(q.get(usize::MAX), None, "get", "{} get at usize::MAX", what);
        check_eq!(q.to_vec(), keys, "get", "{} to_vec", what);
        check_eq!(&q.first(), keys.first().unwrap(), "get", "{} first", what);
        check_eq!(&q.last(), keys.last().unwrap(), "get", "{} last", what);
        let sum: Key = q.summarize();
        check_eq!(serde_json::to_value(sum).unwrap(), Ev::fold(evs.iter()).json(), "summary", "{} summary", what);
        Ok(())
    };
    let q: KeySeq = keys.iter().cloned().collect();
    probe("key seq", &q)?;
    let bits: Vec<bool> = keys.iter().map(|_| s.bool()).collect();
    let want: Vec<Key> = keys.iter().zip(&bits).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    check_eq!(q.select(&bits), want, "select", "selection {:?}", bits);
    let bytes = DagCborCodec.encode(&q).must("encode")?;
    probe("decoded", &DagCborCodec.decode::<KeySeq>(&bytes).must("decode")?)?;
    let json = serde_json::to_value(&q).must("to json")?;
    probe("from json", &serde_json::from_value::<KeySeq>(json.clone()).must("from json")?)?;
    // malformed: columns of different length
    let mut cols: BTreeMap<&str, Vec<u64>> = BTreeMap::new();
    cols.insert("min_lamport", evs.iter().map(|e| e.lamport).collect());
    cols.insert("min_time", evs.iter().map(|e| e.from).collect());
    cols.insert("max_time", evs.iter().map(|e| e.to).collect());
    let victim = *s.pick(&["min_lamport", "min_time", "max_time"]);
    let v = cols.get_mut(victim).unwrap();
    if s.bool() {
        v.push(s.u64_any());
    } else {
        v.truncate(s.below(v.len() as u64) as usize);
    }
    let cv = P::new(&bytes).item().map_err(|e| Fail::new("encoding", e))?;
    let Cv::M(pairs) = &cv else { fail!("encoding", "key sequence is not a map") };
    let mut out = vec![];
    cb_head(&mut out, 5, pairs.len() as u64);
    for (k, x) in pairs {
        let Cv::T(k) = k else { fail!("encoding", "key {:?}", k) };
        cb_str(&mut out, k);
        match cols.get(k.as_str()) {
            Some(c) => {
                cb_head(&mut out, 4, c.len() as u64);
                c.iter().for_each(|x| cb_u64(&mut out, *x));
            }
            None => {
                let Some((t, e)) = read_cb_index(x) else { fail!("encoding", "tags {:?}", x) };
                out.extend(cb_raw_index(&t, &e));
            }
        }
    }
    let mut j = json;
    j[victim] = serde_json::to_value(&cols[victim]).unwrap();
    let a = DagCborCodec.decode::<KeySeq>(&out).map_err(|e| e.to_string());
    let b = serde_json::from_value::<KeySeq>(j).map_err(|e| e.to_string());
    for (what, r) in [("cbor", a), ("json", b)] {
        check!(r.is_err(), "lengths", "{}: key sequence with {} values of {} for {} keys is accepted", what, cols[victim].len(), victim, keys.len());
    }
    obs.label("key sequence");
    obs.nontrivial = evs.len() >= 3;
    Ok(())
}

fn digests(s: &mut Src, obs: &mut Obs) -> R {
    use sha2::Digest;
    let n = s.small(300) as usize;
    let data = s.blob(n);
    let want: [u8; 32] = sha2::Sha256::digest(&data).into();
    let d = Sha256Digest::new(&data);
    check_eq!(d, Sha256Digest::digest(&data), "digest", "new and digest");
    let cid = Cid::from(d);
    let mut raw = vec![1, 0x71, 0x12, 32];
    raw.extend_from_slice(&want);
    check_eq!(cid.to_bytes(), raw, "cid", "bytes of the cid");
    check_eq!(Sha256Digest::try_from(cid).must("try_from")?, d, "cid", "from the cid");
    for text in [d.to_string(), format!("{:?}", d), cid.to_string()] {
        check_eq!(Sha256Digest::from_str(&text).must("from_str")?, d, "text", "from {}", text);
    }
    let bytes = DagCborCodec.encode(&d).must("encode")?;
    let mut w = vec![0xd8, 0x2a, 0x58, 37, 0];
    w.extend_from_slice(&raw);
    check_eq!(bytes, w, "cbor", "encoded digest");
    check_eq!(DagCborCodec.decode::<Sha256Digest>(&bytes).must("decode")?, d, "cbor", "decoded digest");
    // other content ids are rejected
    let other = match s.below(4) {
        0 => Cid::new_v1(*s.pick(&[0x55, 0x70, 0x72, 0x0129]), multihash::Multihash::wrap(0x12, &want).unwrap()),
        1 => Cid::new_v1(0x71, multihash::Multihash::wrap(*s.pick(&[0x13, 0x1e, 0x00, 0x1b]), &want).unwrap()),
        2 => {
            let len = s.range(0, 31) as usize;
            Cid::new_v1(0x71, multihash::Multihash::wrap(0x12, &want[..len]).unwrap())
        }
        _ => {
            let mut long = want.to_vec();
            long.extend_from_slice(&want[..s.range(1, 32) as usize]);
            Cid::new_v1(0x71, multihash::Multihash::wrap(0x12, &long).unwrap())
        }
    };
    obs.note(|| format!("digest {} other {}", d, other));
    check!(Sha256Digest::try_from(other).is_err(), "accepted", "{} accepted as digest", other);
    check!(Sha256Digest::from_str(&other.to_string()).is_err(), "accepted", "{} accepted as digest text", other);
    let b = DagCborCodec.encode(&other).must("encode")?;
    check!(DagCborCodec.decode::<Sha256Digest>(&b).is_err(), "accepted", "{} accepted as encoded digest", other);
    check!(Sha256Digest::from_str("").is_err() && Sha256Digest::from_str("x").is_err(), "accepted", "garbage text");
    // base64 blobs
    let j = serde_json::to_value(Base64Blob(data.clone())).must("to json")?;
    let b: Base64Blob = serde_json::from_value(j.clone()).must("from json")?;
    check_eq!(b.0, data, "base64", "round trip of {}", j);
    let bad = format!("\"{}*\"", j.as_str().unwrap());
    check!(serde_json::from_str::<Base64Blob>(&bad).is_err(), "accepted", "{}", bad);
    // keys made of a pass phrase
    let mut text = String::new();
    while text.len() < 40 && s.more(20) {
        text.push(*s.pick(&['a', 'z', '0', 'ü', '日']));
    }
    let key = banyan_utils::create_chacha_key(text.clone());
    let mut want = [0u8; 32];
    for (a, b) in want.iter_mut().zip(text.bytes()) {
        *a = b;
    }
    check_eq!(&key[..], &want[..], "key", "key of {:?}", text);
    obs.label("digest");
    obs.nontrivial = true;
    Ok(())
}

fn r_unsorted() -> R {
    let bytes = cb_raw_index(&["b".into(), "a".into()], &[vec![0], vec![1]]);
    if let Ok(i) = DagCborCodec.decode::<TagIndex>(&bytes) {
        check_index("cbor", &i, &[tagset([1]), tagset([0])])?;
    }
    if let Ok(i) = serde_json::from_str::<TagIndex>("[[\"b\",\"a\"],[[0],[1]]]") {
        check_index("json", &i, &[tagset([1]), tagset([0])])?;
    }
    Ok(())
}

fn r_lengths() -> R {
    let j = "{\"min_lamport\":[1],\"min_time\":[],\"max_time\":[1],\"tags\":[[\"a\"],[[0]]]}";
    if let Ok(q) = serde_json::from_str::<KeySeq>(j) {
        check!((0..q.len()).all(|i| q.get(i).is_some()), "lengths", "json: a key is missing");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C24

type TTree = Tree<TT, Val>;
type TFor = Forest<TT, HStore>;

#[derive(Clone, Debug)]
enum Tq {
    All,
    Empty,
    Off(u64, u64),
    Dnf(Vec<Term>),
    And(Box<Tq>, Box<Tq>),
    Or(Box<Tq>, Box<Tq>),
}

#[derive(Clone, Debug)]
struct Term {
    from: u64,
    to: u64,
    tags: BTreeSet<u32>,
}

impl Tq {
    fn matches(&self, o: u64, e: &Ev) -> bool {
        match self {
            Tq::All => true,
            Tq::Empty => false,
            Tq::Off(a, b) => *a <= o && o <= *b,
            Tq::Dnf(t) => t.iter().any(|t| t.from <= e.from && e.to <= t.to && e.tags.is_subset(&t.tags)),
            Tq::And(a, b) => a.matches(o, e) && b.matches(o, e),
            Tq::Or(a, b) => a.matches(o, e) || b.matches(o, e),
        }
    }
    fn build(&self) -> std::sync::Arc<dyn banyan::query::Query<TT>> {
        match self {
            Tq::All => AllQuery.boxed(),
            Tq::Empty => EmptyQuery.boxed(),
            Tq::Off(a, b) => OffsetRangeQuery::from(*a..=*b).boxed(),
            Tq::Dnf(t) => DnfQuery(
                t.iter()
                    .map(|t| {
                        let tags = tagset(t.tags.iter().copied());
                        if (t.from, t.to) == (0, u64::MAX) {
                            Key::filter_tags(tags)
                        } else {
                            Key::range(t.from, t.to, tags)
                        }
                    })
                    .collect(),
            )
            .boxed(),
            Tq::And(a, b) => AndQuery(a.build(), b.build()).boxed(),
            Tq::Or(a, b) => OrQuery(a.build(), b.build()).boxed(),
        }
    }
}

fn gen_tq(s: &mut Src, n: u64, (base, clock, pool): (u64, u64, u64), depth: u32) -> Tq {
    match s.weighted(if depth >= 2 { &[8, 2, 1, 1] } else { &[8, 2, 1, 1, 3, 3] }) {
        0 => {
            let mut terms = vec![];
            while terms.len() < 5 && s.more(2) {
                let last = clock.saturating_add(2);
                let first = base.saturating_sub(20);
                let (from, to) = match s.weighted(&[3, 3, 1, 1]) {
                    0 => (0, u64::MAX),
                    1 => {
                        let a = s.range(first, last);
                        (a, a.saturating_add(s.range(0, (last - first) / 2 + 2)))
                    }
                    2 => (s.range(first, last), s.range(first, last)),
                    _ => (s.u64_any(), s.u64_any()),
                };
                let mut tags = BTreeSet::new();
                if pool > 12 {
                    let at = s.below(pool);
                    let n = s.range(0, pool);
                    tags.extend((0..n).map(|i| ((at + i) % pool) as u32));
                }
                while tags.len() < 12 && s.more(4) {
                    tags.insert(s.below(12) as u32);
                }
                terms.push(Term { from, to, tags });
            }
            Tq::Dnf(terms)
        }
        1 => Tq::Off(gen_off(s, n), gen_off(s, n)),
        2 => Tq::All,
        3 => Tq::Empty,
        4 => Tq::And(Box::new(gen_tq(s, n, (base, clock, pool), depth + 1)), Box::new(gen_tq(s, n, (base, clock, pool), depth + 1))),
        _ => Tq::Or(Box::new(gen_tq(s, n, (base, clock, pool), depth + 1)), Box::new(gen_tq(s, n, (base, clock, pool), depth + 1))),
    }
}

fn t_txn(store: &HStore, cache: usize) -> Transaction<TT, HStore, HStore> {
    Transaction::new(Forest::new(store.clone(), BranchCache::new(cache)), store.clone())
}

fn as_json(k: &Key) -> serde_json::Value {
    serde_json::to_value(k).unwrap()
}

/// all summaries and leaf keys below an index are those of the model
fn check_summaries(f: &TFor, tree: &TTree, model: &[(Ev, Val)]) -> R<usize> {
    let nodes: Vec<Index<TT>> = f.iter_index(tree, AllQuery).collect::<anyhow::Result<_>>().must("iter_index")?;
    let mut at = 0;
    if !nodes.is_empty() {
        let n = check_node(&nodes, &mut at, 0, model)?;
        check_eq!(n, model.len() as u64, "range", "elements of the root");
    }
    check_eq!(at, nodes.len(), "nodes", "nodes of the pre-order index iteration");
    Ok(nodes.len())
}

/// checks a node of a pre-order sequence at an offset, returns its number of elements
fn check_node(nodes: &[Index<TT>], at: &mut usize, start: u64, model: &[(Ev, Val)]) -> R<u64> {
    let Some(node) = nodes.get(*at) else { fail!("nodes", "nodes are missing") };
    *at += 1;
    let part = |o: u64, c: u64| model.get(o as usize..(o + c) as usize);
    match node {
        Index::Branch(idx) if idx.link.is_some() => {
            let mut o = start;
            for (i, sum) in idx.summaries.to_vec().iter().enumerate() {
                let c = check_node(nodes, at, o, model)?;
                let evs = part(o, c).unwrap_or(&[]);
                let want = Ev::fold(evs.iter().map(|x| &x.0)).json();
                check_eq!(as_json(sum), want, "summary", "summary {} covering {}..{}", i, o, o + c);
                o += c;
            }
            check_eq!(o - start, idx.count, "range", "count of the branch at {}", start);
        }
        Index::Branch(idx) => {
            let Some(evs) = part(start, idx.count) else { fail!("range", "purged branch at {}", start) };
            let want = Ev::fold(evs.iter().map(|x| &x.0)).json();
            check_eq!(as_json(&idx.summaries.summarize()), want, "summary", "purged branch at {}", start);
        }
        Index::Leaf(idx) => {
            let Some(evs) = part(start, idx.keys.count()) else { fail!("range", "leaf at {}", start) };
            let got: Vec<_> = idx.keys().map(|k| as_json(&k)).collect();
            let want: Vec<_> = evs.iter().map(|e| e.0.json()).collect();
            check_eq!(got, want, "keys", "keys of the leaf at {}", start);
        }
    }
    Ok(node.count())
}

fn c24(s: &mut Src, obs: &mut Obs) -> R {
    let (cfg, _) = gen_config(s);
    // room for a value of 3 bytes
    let cfg = Config { max_uncompressed_leaf_size: cfg.max_uncompressed_leaf_size.max(60), ..cfg };
    let secrets: Secrets = gen_secrets(s);
    let cache = gen_cache(s);
    let store = HStore::new();
    let mut t = t_txn(&store, cache);
    let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg.clone(), secrets.clone());
    obs.note(|| format!("config {}", model::cfg_str(&cfg)));
    let mut model: Vec<(Ev, Val)> = vec![];
    let base = match s.weighted(&[4, 1, 1, 1]) {
        0 => 0,
        1 => (1u64 << 32) - s.below(300),
        2 => (1 << 63) - s.below(300),
        _ => u64::MAX - s.below(2000),
    };
    let mut clock = base;
    let pool = match s.weighted(&[8, 1]) {
        0 => s.range(1, 12),
        _ => s.range(13, 400),
    };
    let mut purged = false;
    let mut steps = 0;
    while steps < 1 || (steps < 8 && s.more(4)) {
        steps += 1;
        let kind = s.weighted(&[6, 5, 2, 1, 1]);
        match kind {
            0 | 1 => {
                let n = if s.bool() { s.usize(1, 6) } else { s.usize(1, 60) };
                let mut items = vec![];
                for _ in 0..n {
                    clock = clock.saturating_add(s.below(4));
                    let mut tags = BTreeSet::from([s.below(pool) as u32]);
                    while tags.len() < 5 && s.more(1) {
                        tags.insert(s.below(pool) as u32);
                    }
                    if pool > 12 && s.chance(1, 10) {
                        let from = s.below(pool);
                        tags.extend((from..pool.min(from + s.range(0, 300))).map(|x| x as u32));
                    }
                    // time is not monotone
                    let at = clock.saturating_sub(if s.chance(1, 8) { s.range(0, 20) } else { 0 });
                    items.push((
                        Ev { lamport: model.len() as u64 + s.below(3), from: at, to: at, tags },
                        model::to_val(&[0x19, s.below(256) as u8, s.below(256) as u8]),
                    ));
                }
                obs.note(|| format!("append {} unpacked={}", n, kind == 1));
                let kv: Vec<_> = items.iter().map(|(e, v)| (e.key(), v.clone())).collect();
                if kind == 0 {
                    t.extend(&mut b, kv).must("extend")?;
                } else {
                    t.extend_unpacked(&mut b, kv).must("extend_unpacked")?;
                }
                model.extend(items);
            }
            2 => {
                obs.note(|| "pack".into());
                t.pack(&mut b).must("pack")?;
            }
            3 => {
                if let Some(l) = b.link() {
                    obs.note(|| "reload".into());
                    t = t_txn(&store, cache);
                    b = t.load_stream_builder(secrets.clone(), cfg.clone(), l).must("load_stream_builder")?;
                }
            }
            _ => {
                if b.index().is_some() {
                    let q = gen_tq(s, model.len() as u64, (base, clock, pool), 0);
                    obs.note(|| format!("retain {:?}", q));
                    let before = t.collect(&b.snapshot()).must("collect")?;
                    t.retain(&mut b, &q.build()).must("retain")?;
                    let after = t.collect(&b.snapshot()).must("collect")?;
                    check_eq!(after.len(), before.len(), "retain", "length after retain");
                    for (o, (x, y)) in before.iter().zip(&after).enumerate() {
                        if y != x {
                            check!(y.is_none(), "retain", "retain changed offset {}", o);
                            check!(!q.matches(o as u64, &model[o].0), "retain", "retain {:?} forgot {} {:?}", q, o, model[o].0);
                            purged = true;
                        }
                    }
                }
            }
        }
    }
    let tree = b.snapshot();
    let f: TFor = Forest::new(store.clone(), BranchCache::new(cache));
    let present: Vec<bool> = f.collect(&tree).must("collect")?.into_iter().map(|x| x.is_some()).collect();
    check_eq!(present.len(), model.len(), "count", "number of elements");
    check!(purged || present.iter().all(|x| *x), "count", "missing elements");
    let nodes = check_summaries(&f, &tree, &model)?;
    for _ in 0..s.usize(1, 5) {
        let q = gen_tq(s, model.len() as u64, (base, clock, pool), 0);
        obs.note(|| format!("query {:?}", q));
        let want: Vec<(u64, Key, Val)> = model
            .iter()
            .enumerate()
            .filter(|(o, (e, _))| present[*o] && q.matches(*o as u64, e))
            .map(|(o, (e, v))| (o as u64, e.key(), v.clone()))
            .collect();
        let cmp = |what: &str, got: Vec<(u64, Key, Val)>| -> R {
            let g: Vec<u64> = got.iter().map(|x| x.0).collect();
            let w: Vec<u64> = want.iter().map(|x| x.0).collect();
            check_eq!(g, w, "results", "{} offsets of {:?}", what, q);
            check!(got == want, "results", "{} keys or values of {:?}", what, q);
            Ok(())
        };
        let built = q.build();
        let got = f.iter_filtered(&tree, built.clone()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered")?;
        cmp("iter_filtered", got)?;
        let mut got = f.iter_filtered_reverse(&tree, built.clone()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered_reverse")?;
        got.reverse();
        cmp("iter_filtered_reverse", got)?;
        if s.bool() {
            let got = block_on(f.stream_filtered(&tree, built.clone()).try_collect::<Vec<_>>()).must("stream_filtered")?;
            cmp("stream_filtered", got)?;
            let got = f
                .iter_filtered_chunked(&tree, built.clone(), &|_| ())
                .map(|c| c.map(|c| c.data))
                .collect::<anyhow::Result<Vec<_>>>()
                .must("iter_filtered_chunked")?;
            cmp("iter_filtered_chunked", got.concat())?;
            let trees = futures::stream::iter(vec![tree.clone()]);
            let got = block_on(f.stream_trees(built.clone(), trees).try_collect::<Vec<_>>()).must("stream_trees")?;
            cmp("stream_trees", got)?;
        }
        obs.label_if(want.len() > 20, "many results");
        if nodes >= 3 && !want.is_empty() && want.len() < model.len() {
            obs.nontrivial = true;
        }
    }
    obs.label_if(purged, "purged parts");
    Ok(())
}

fn tiny(evs: &[Ev], cfg: Config) -> R<(TFor, TTree)> {
    let store = HStore::new();
    let mut t = t_txn(&store, 1000);
    let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg, Secrets::default());
    let kv: Vec<_> = evs.iter().map(|e| (e.key(), model::to_val(&[1]))).collect();
    t.extend(&mut b, kv).must("extend")?;
    Ok((Forest::new(store, BranchCache::new(0)), b.snapshot()))
}

fn offsets(f: &TFor, t: &TTree, q: &Tq) -> R<Vec<u64>> {
    f.iter_filtered(t, q.build()).map(|x| x.map(|x| x.0)).collect::<anyhow::Result<_>>().must("iter_filtered")
}

fn r_unknown() -> R {
    let ev = |t: u32| Ev { lamport: 0, from: 0, to: 0, tags: BTreeSet::from([t]) };
    let (f, t) = tiny(&[ev(0), ev(0)], Config::debug())?;
    let term = |t: u32| Term { from: 0, to: u64::MAX, tags: BTreeSet::from([t]) };
    let q = Tq::Dnf(vec![term(0), term(11)]);
    check_eq!(offsets(&f, &t, &q)?, vec![0, 1], "results", "query with one tag that does not occur in the tree");
    let q = Tq::Dnf(vec![Term { from: 0, to: u64::MAX, tags: BTreeSet::from([0, 11]) }]);
    check_eq!(offsets(&f, &t, &q)?, vec![0, 1], "results", "query with a term of which one tag does not occur in the tree");
    Ok(())
}

fn r_untagged() -> R {
    let ev = |tags: &[u32]| Ev { lamport: 0, from: 0, to: 0, tags: tags.iter().copied().collect() };
    let evs = vec![ev(&[]), ev(&[0])];
    let q = Tq::Dnf(vec![Term { from: 0, to: u64::MAX, tags: BTreeSet::from([0]) }]);
    let (f, t) = tiny(&evs, Config { max_leaf_count: 100, ..Config::debug() })?;
    let one = offsets(&f, &t, &q)?;
    let (f, t) = tiny(&evs, Config { max_leaf_count: 1, ..Config::debug() })?;
    let two = offsets(&f, &t, &q)?;
    check_eq!(one, two, "layout", "events without tags, in one leaf and in two leaves");
    Ok(())
}
