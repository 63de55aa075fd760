//! C01 content fidelity
use crate::engine::*;
use crate::model::*;
use crate::walker;
use crate::{check, check_eq};

pub static PROPS: &[Prop] = &[Prop {
    id: "C01",
    rule: "random append/pack/reload/rollback histories (1..12 steps, batches of 0..300 elements) over random configs, secrets and cache sizes; compared with a Vec. Non-trivial: at least two batches and a tree of at least two nodes",
    run: c01,
    quick: 20000,
    thorough: 60000,
    threads: 0,
    regress: &[],
    assumptions: &[],
    level: "exploration",
}];

fn c01(s: &mut Src, obs: &mut Obs) -> R {
    // now and then a few large batches with limits as they are used in production
    let large = s.chance(1, 400);
    let mut w = if large {
        obs.label("large");
        let cfg = banyan::Config {
            max_leaf_count: *s.pick(&[1 << 14, 1 << 17, 300, 70000]),
            max_key_branches: *s.pick(&[32, 300, 2]),
            max_summary_branches: *s.pick(&[32, 300, 2]),
            target_leaf_size: *s.pick(&[1 << 14, 1 << 24]),
            max_uncompressed_leaf_size: *s.pick(&[1 << 20, 16 << 20]),
            zstd_level: s.range(0, 3) as i32,
        };
        let prof = ValProfile { max_len: 40, big: false, links: s.chance(1, 4) };
        World::with(s, obs, cfg, prof)
    } else {
        World::new(s, obs)
    };
    let max = if large { 70000 } else { 300 };
    let mut steps = if large { 8 } else { 0 };
    let probe = |s: &mut Src, obs: &mut Obs, w: &World| -> R {
        let n = w.n();
        let tree = w.b.snapshot();
        let f = w.forest();
        check_eq!(w.b.count(), n, "count", "builder count");
        check_eq!(tree.count(), n, "count", "tree count");
        check_eq!(tree.is_empty(), n == 0, "is_empty", "tree is_empty");
        check_eq!(w.b.is_empty(), n == 0, "is_empty", "builder is_empty");
        for _ in 0..3 {
            let o = gen_off(s, n);
            obs.note(|| format!("  get {}", o));
            let got = f.get(&tree, o).must("get")?;
            let want = w.model.get(o as usize).cloned().flatten();
            check!(
                got == want,
                "get",
                "get({}) of {} elements: got {}, expected {}",
                o,
                n,
                got.as_ref().map(fmt_item).unwrap_or_default(),
                want.as_ref().map(fmt_item).unwrap_or_default()
            );
        }
        Ok(())
    };
    while steps == 0 || steps == 8 || (steps < 12 && s.more(5)) {
        steps += 1;
        let step = if large && steps == 9 {
            Step::Extend(s.usize(60000, 80000))
        } else {
            gen_step_w(s, &w, max, &[6, 5, 2, 2, 2, 1, 1, 1, 1])
        };
        apply_step(s, obs, &mut w, &step)?;
        probe(s, obs, &w)?;
        if s.chance(1, 3) {
            full(s, &w)?;
        }
    }
    full(s, &w)?;
    let nodes = match w.b.index() {
        Some(i) => walker::walk(&w.store, &w.secrets, i, 0)?.nodes().len(),
        None => 0,
    };
    let level = w.b.level();
    obs.label_if(level >= 4, "level>=4");
    obs.label_if(level >= 8, "level>=8");
    obs.label_if(w.n() > 100, "n>100");
    obs.nontrivial = w.batches >= 2 && nodes >= 2;
    Ok(())
}

fn full(s: &mut Src, w: &World) -> R {
    let tree = w.b.snapshot();
    let f = w.forest();
    let got = f.collect(&tree).must("collect")?;
    same_content("collect", &got, &w.model, 0)?;
    let o = gen_off(s, w.n());
    let got = f.collect_from(&tree, o).must("collect_from")?;
    same_content("collect_from", &got, &w.model, o.min(1 << 40) as usize)?;
    let got = f
        .iter_from(&tree)
        .take(w.model.len() + 10)
        .collect::<anyhow::Result<Vec<_>>>()
        .must("iter_from")?;
    cmp_triples("iter_from", &got, &triples(&w.model, &Qx::All))?;
    if let Some(i) = w.b.index() {
        let node = walker::walk(&w.store, &w.secrets, i, 0)?;
        let mut c = vec![];
        walker::content(&node, &mut c);
        same_content("independent reader", &c, &w.model, 0)?;
    }
    Ok(())
}
