//! Checks of the multi-trace manipulation tools: M01.. (see /verif/DESIGN.md).
use std::collections::{BTreeMap, BTreeSet, VecDeque};

use mc::cli::{Cli, Quiet};
use mc::hif::Names;
use mc::report::*;
use mc::rngctl::all_choices;
use mc::scratch::Scratch;
use mc::universe::*;

use hibou::core::colocalizations::CoLocalizations;
use hibou::core::execution::trace::trace::TraceAction;
use hibou::core::general_context::GeneralContext;
use hibou::io::input::htf::interface::parse_htf_file;
use hibou::trace_manip::mutate::insert_noise::generate_insert_noise_mutant;
use hibou::trace_manip::mutate::remove_actions::generate_remove_actions_mutant;
use hibou::trace_manip::mutate::swap_actions::generate_swap_actions_mutant;
use hibou::trace_manip::mutate::swap_component::generate_swap_components_mutant;
use hibou::trace_manip::slice::conf::{SliceGenerationSelection, SliceKind};
use hibou::trace_manip::slice::generate::generate_slices;

type L = BTreeSet<TraceAction>;
type Mu = Vec<Vec<L>>;
const LFS: usize = 3;
const MSS: usize = 2;

struct W {
    dir: Scratch,
    cli: Cli,
    g: GeneralContext,
}

fn one(a: TraceAction) -> L {
    vec![a].into_iter().collect()
}

/// the parts of a multi-trace on the given components: lengths, and what the letters are
#[derive(Clone, Debug)]
struct Item {
    parts: Vec<BTreeSet<usize>>,
    mu: Mu,
    what: String,
    /// messages of the signature
    mss: usize,
}

/// the k-th letter of a component: pairwise distinct, all equal, or sets of actions
fn letter(c: &BTreeSet<usize>, k: usize, style: usize, shift: usize, mss: usize) -> L {
    let lfs: Vec<usize> = c.iter().cloned().collect();
    let mut single: Vec<TraceAction> = vec![];
    for m in 0..mss {
        for l in &lfs {
            single.push(em(*l, m));
            single.push(rc(*l, m));
        }
    }
    let n = single.len();
    match style {
        0 => one(single[(k + shift) % n].clone()),
        1 => one(single[shift % n].clone()),
        _ => {
            if k % 2 == 0 {
                vec![single[(k + shift) % n].clone(), single[(k + shift + 1) % n].clone()].into_iter().collect()
            } else {
                one(single[(k + shift) % n].clone())
            }
        }
    }
}

fn ordered_partitions(n: usize) -> Vec<Vec<BTreeSet<usize>>> {
    fn rec(rest: &BTreeSet<usize>, cur: &mut Vec<BTreeSet<usize>>, out: &mut Vec<Vec<BTreeSet<usize>>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        let v: Vec<usize> = rest.iter().cloned().collect();
        for mask in 1..(1usize << v.len()) {
            let c: BTreeSet<usize> = v.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|x| *x.1).collect();
            let r: BTreeSet<usize> = rest.difference(&c).cloned().collect();
            cur.push(c);
            rec(&r, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(&(0..n).collect(), &mut vec![], &mut out);
    out
}

/// every partition of the lifelines, every tuple of lengths up to `max` with at most `total` letters
fn items(max: usize, total: usize, styles: &[usize], mss: usize) -> Vec<Item> {
    let mut v = vec![];
    for p in ordered_partitions(LFS) {
        let k = p.len();
        let mut lens = vec![0usize; k];
        loop {
            if lens.iter().sum::<usize>() <= total {
                for st in styles {
                    let mu: Mu = p.iter().zip(&lens).map(|(c, n)| (0..*n).map(|j| letter(c, j, *st, 0, mss)).collect()).collect();
                    v.push(Item { parts: p.clone(), mu, what: format!("components {:?} of lengths {:?}, style {}", p, lens, st), mss });
                }
            }
            let mut j = 0;
            while j < k && lens[j] == max {
                lens[j] = 0;
                j += 1;
            }
            if j == k {
                break;
            }
            lens[j] += 1;
        }
    }
    v
}

/// one long component next to short ones
fn long_items(lens: &[usize]) -> Vec<Item> {
    let mut v = vec![];
    for p in ordered_partitions(LFS).into_iter().filter(|p| p.len() <= 2) {
        for at in 0..p.len() {
            for &n in lens {
                let mu: Mu = p.iter().enumerate().map(|(k, c)| (0..if k == at { n } else { 1 }).map(|j| letter(c, j, 0, 0, MSS)).collect()).collect();
                v.push(Item { parts: p.clone(), mu, what: format!("components {:?}, one of length {}", p, n), mss: MSS });
            }
        }
    }
    v
}

fn bad(key: &str, it: &Item, d: String) -> Failure {
    Failure { key: key.to_string(), detail: format!("{}\nmulti-trace {}\n{}", it.what, show_mu(&it.mu), d) }
}

fn show_mu(m: &Mu) -> String {
    let n = Names::std(LFS, MSS);
    m.iter().map(|c| format!("[{}]", c.iter().map(|l| n.letter(l)).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(" ")
}

/// the files of a folder with the multi-traces in them, which must be on the same components
fn read_all(dir: &str, it: &Item, g: &GeneralContext) -> Result<BTreeMap<String, Mu>, Failure> {
    let mut out = BTreeMap::new();
    let rd = std::fs::read_dir(dir).map_err(|e| bad("folder", it, format!("{}: {}", dir, e)))?;
    for e in rd {
        let p = e.unwrap().path();
        let name = p.file_name().unwrap().to_str().unwrap().to_string();
        out.insert(name, read_one(p.to_str().unwrap(), it, g)?);
    }
    Ok(out)
}

fn read_one(path: &str, it: &Item, g: &GeneralContext) -> Result<Mu, Failure> {
    let (c, m) = match parse_htf_file(g, path) {
        Ok(x) => x,
        Err(e) => return Err(bad("unreadable", it, format!("{}: {}", path, e))),
    };
    if c.locs_lf_ids != it.parts {
        return Err(bad("components", it, format!("{} is on components {:?}", path, c.locs_lf_ids)));
    }
    Ok(m)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Prefix,
    Suffix,
    Slice,
}

impl K {
    fn real(self) -> SliceKind {
        match self {
            K::Prefix => SliceKind::Prefix,
            K::Suffix => SliceKind::Suffix,
            K::Slice => SliceKind::Slice,
        }
    }
    fn word(self) -> &'static str {
        match self {
            K::Prefix => "prefix",
            K::Suffix => "suffix",
            K::Slice => "slice",
        }
    }
}

const KS: [K; 3] = [K::Prefix, K::Suffix, K::Slice];

fn windows(c: &[L], k: K) -> Vec<Vec<L>> {
    let n = c.len();
    match k {
        K::Prefix => (0..=n).map(|i| c[..i].to_vec()).collect(),
        K::Suffix => (0..=n).map(|i| c[i..].to_vec()).collect(),
        K::Slice => {
            let mut v = vec![vec![]];
            for i in 0..n {
                for j in i + 1..=n {
                    v.push(c[i..j].to_vec());
                }
            }
            v
        }
    }
}

fn product(cs: &[Vec<Vec<L>>]) -> Vec<Mu> {
    let mut out: Vec<Mu> = vec![vec![]];
    for c in cs {
        let mut next = Vec::with_capacity(out.len() * c.len());
        for x in &out {
            for y in c {
                let mut z = x.clone();
                z.push(y.clone());
                next.push(z);
            }
        }
        out = next;
    }
    out
}

fn judge_exhaustive(dir: &str, prefix: &str, k: K, it: &Item, g: &GeneralContext, t: &mut Tally) -> Result<(), Failure> {
    let got = read_all(dir, it, g)?;
    let mut want = product(&it.mu.iter().map(|c| windows(c, k)).collect::<Vec<_>>());
    let names: BTreeSet<String> = (1..=want.len()).map(|i| format!("{}s{}.htf", prefix, i)).collect();
    t.states += want.len() as u64;
    t.validated += got.len() as u64;
    if got.keys().cloned().collect::<BTreeSet<_>>() != names {
        return Err(bad("files", it, format!("{:?}: {} files instead of {}: {:?}", k, got.len(), want.len(), got.keys().take(8).collect::<Vec<_>>())));
    }
    let mut got: Vec<Mu> = got.into_values().collect();
    got.sort();
    want.sort();
    if got != want {
        let extra = got.iter().find(|x| !want.contains(x));
        let miss = want.iter().find(|x| !got.contains(x));
        return Err(bad("slices", it, format!("{:?}: not the slices: missing {:?}, unexpected {:?}", k, miss.map(show_mu), extra.map(show_mu))));
    }
    Ok(())
}

fn m01(it: &Item, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let c = CoLocalizations::new(it.parts.clone());
    for k in KS {
        for prefix in [None, Some("p_")] {
            w.dir.clear();
            let d = w.dir.file("out/deep");
            t.transitions += 1;
            guarded(|| generate_slices(&w.g, &c, "mu", &it.mu, Some(&d), prefix, &SliceGenerationSelection::Exhaustive, &k.real())).map_err(|p| bad("panic", it, p))?;
            judge_exhaustive(&d, prefix.unwrap_or(""), k, it, &w.g, t)?;
        }
    }
    Ok(())
}

/// is `x` a window of `c` of this kind, long enough when wide
fn is_cut(x: &[L], c: &[L], k: K, wide: bool) -> bool {
    let in_kind = match k {
        K::Prefix => c.starts_with(x),
        K::Suffix => c.ends_with(x),
        K::Slice => x.is_empty() || c.windows(x.len()).any(|y| y == x),
    };
    in_kind && (!wide || 3 * x.len() >= c.len())
}

fn judge_random(dir: &str, prefix: &str, k: K, wide: bool, n: usize, distinct: bool, it: &Item, g: &GeneralContext) -> Result<BTreeMap<String, Mu>, Failure> {
    let got = read_all(dir, it, g)?;
    let names: BTreeSet<String> = (1..=n).map(|i| format!("{}s{}.htf", prefix, i)).collect();
    if let Some(x) = got.keys().find(|x| !names.contains(*x)) {
        return Err(bad("files", it, format!("{:?}: file {} among {} slices", k, x, n)));
    }
    if n > 0 && got.is_empty() {
        return Err(bad("files", it, format!("{:?}: no slice generated", k)));
    }
    for m in got.values() {
        for (x, c) in m.iter().zip(&it.mu) {
            if !is_cut(x, c, k, wide) {
                return Err(bad("not-a-slice", it, format!("{:?} wide={}: got {}", k, wide, show_mu(m))));
            }
        }
    }
    if distinct {
        // with pairwise distinct letters, slices without an empty part differ from each other
        let full: Vec<&Mu> = got.values().filter(|m| m.iter().zip(&it.mu).all(|(x, c)| c.is_empty() || !x.is_empty())).collect();
        let set: BTreeSet<&Mu> = full.iter().cloned().collect();
        if set.len() != full.len() {
            return Err(bad("twice", it, format!("{:?} wide={}: the same slice several times: {:?}", k, wide, got.keys())));
        }
    }
    Ok(got)
}

fn m02(it: &Item, distinct: bool, nmax: u32, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let c = CoLocalizations::new(it.parts.clone());
    let d = w.dir.file("out");
    for k in KS {
        for wide in [false, true] {
            let mut reached: BTreeSet<Mu> = BTreeSet::new();
            for n in 0..=nmax {
                let mut most = 0;
                let (st, r) = all_choices(60, 0, 3_000_000, |_| {
                    w.dir.clear();
                    generate_slices(&w.g, &c, "mu", &it.mu, Some(&d), None, &SliceGenerationSelection::Random(n, wide), &k.real());
                    let got = judge_random(&d, "", k, wide, n as usize, distinct, it, &w.g)?;
                    most = most.max(got.len());
                    t.validated += got.len() as u64;
                    if n == 1 {
                        reached.extend(got.into_values());
                    }
                    Ok(())
                });
                t.states += st.runs;
                t.transitions += st.decisions;
                r?;
                if st.cut > 0 {
                    return Err(bad("decisions", it, format!("{:?}: slicing does not end", k)));
                }
                // as many slices as asked for can be obtained, when there are that many
                if n > 0 && most < (n as usize).min(reached.len()) {
                    return Err(bad("few", it, format!("{:?} wide={}: never {} slices although {} are possible", k, wide, n, reached.len())));
                }
            }
            // slicing is a random choice: a long enough component must have several outcomes
            if it.mu.iter().any(|c| c.len() > 2) && reached.len() < 2 {
                return Err(bad("stuck", it, format!("{:?} wide={}: always the same slice", k, wide)));
            }
        }
    }
    Ok(())
}

fn subsequence(x: &[L], y: &[L]) -> bool {
    let mut k = 0;
    for a in y {
        if k < x.len() && &x[k] == a {
            k += 1;
        }
    }
    k == x.len()
}

fn multiset(x: &[L]) -> BTreeMap<&L, i64> {
    let mut m = BTreeMap::new();
    for a in x {
        *m.entry(a).or_insert(0) += 1;
    }
    m
}

/// the letters of y that are not in x (y has all letters of x)
fn extras(x: &[L], y: &[L]) -> Vec<L> {
    let mut m = multiset(y);
    for a in x {
        *m.entry(a).or_insert(0) -= 1;
    }
    let mut v = vec![];
    for (a, n) in m {
        for _ in 0..n.max(0) {
            v.push(a.clone());
        }
    }
    v
}

fn judge_noise(m: &Mu, it: &Item, max: usize, single: bool, end: bool) -> Result<Vec<(usize, L)>, Failure> {
    let e = |d: &str| bad("noise", it, format!("at most {} insertions, one per component: {}, only at the end: {}: got {}: {}", max, single, end, show_mu(m), d));
    let mut ins = vec![];
    for (k, (x, y)) in it.mu.iter().zip(m).enumerate() {
        if !subsequence(x, y) {
            return Err(e("original letters lost"));
        }
        if end && !y.starts_with(x) {
            return Err(e("not at the end"));
        }
        let ex = extras(x, y);
        if single && ex.len() > 1 {
            return Err(e("several in one component"));
        }
        for a in ex {
            if a.len() != 1 || a.iter().any(|a| !it.parts[k].contains(&a.lf_id) || a.ms_id >= it.mss) {
                return Err(e("not an action of the component"));
            }
            ins.push((k, a));
        }
    }
    let want = if single { max.min(it.mu.len()) } else { max };
    if ins.len() != want {
        return Err(e("number of insertions"));
    }
    Ok(ins)
}

fn judge_removed(m: &Mu, it: &Item, max: usize) -> Result<usize, Failure> {
    let e = |d: &str| bad("removed", it, format!("at most {} removals: got {}: {}", max, show_mu(m), d));
    let mut n = 0;
    for (x, y) in it.mu.iter().zip(m) {
        if !subsequence(y, x) {
            return Err(e("not obtained by removing letters"));
        }
        n += x.len() - y.len();
    }
    if n > max {
        return Err(e("too many removals"));
    }
    if it.mu.iter().all(|c| c.len() >= max) && n != max {
        return Err(e("too few removals"));
    }
    Ok(n)
}

/// least number of exchanges of two letters leading from x to y
fn exchanges(x: &[L], y: &[L]) -> Option<usize> {
    let mut seen: BTreeSet<Vec<L>> = BTreeSet::new();
    let mut todo: VecDeque<(Vec<L>, usize)> = VecDeque::new();
    todo.push_back((x.to_vec(), 0));
    seen.insert(x.to_vec());
    while let Some((z, n)) = todo.pop_front() {
        if z == y {
            return Some(n);
        }
        for i in 0..z.len() {
            for j in i + 1..z.len() {
                let mut q = z.clone();
                q.swap(i, j);
                if seen.insert(q.clone()) {
                    todo.push_back((q, n + 1));
                }
            }
        }
    }
    None
}

fn judge_swapped(m: &Mu, it: &Item, max: usize) -> Result<usize, Failure> {
    let e = |d: &str| bad("swapped", it, format!("at most {} exchanges: got {}: {}", max, show_mu(m), d));
    let mut n = 0;
    for (x, y) in it.mu.iter().zip(m) {
        match exchanges(x, y) {
            None => return Err(e("letters changed")),
            Some(k) => n += k,
        }
    }
    if n > max {
        return Err(e("too many exchanges"));
    }
    Ok(n)
}

fn judge_crossed(m: &Mu, it: &Item, other: &Mu, max: usize) -> Result<BTreeSet<usize>, Failure> {
    let e = |d: &str| bad("crossed", it, format!("with {}, at most {} components: got {}: {}", show_mu(other), max, show_mu(m), d));
    if m.len() != it.mu.len() {
        return Err(e("number of components"));
    }
    let mut sw = BTreeSet::new();
    for k in 0..m.len() {
        if m[k] != it.mu[k] {
            if m[k] != other[k] {
                return Err(e("component from neither"));
            }
            sw.insert(k);
        }
    }
    if sw.len() > max || (sw.len() == m.len() && max < m.len()) {
        return Err(e("too many components"));
    }
    Ok(sw)
}

/// the other multi-trace: same components, other lengths and letters
fn other_of(it: &Item) -> Mu {
    it.mu.iter().zip(&it.parts).enumerate().map(|(k, (x, c))| (0..(x.len() + k + 1) % 3 + if x.is_empty() { 1 } else { 0 }).map(|j| letter(c, j, 2, 1, it.mss)).collect()).collect()
}

fn m03(it: &Item, distinct: bool, nmax: u32, len: usize, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let c = CoLocalizations::new(it.parts.clone());
    let d = w.dir.file("out");
    let want_path = w.dir.file("out/x.htf");
    let g = &gen_ctx(LFS, it.mss);
    let mut run = |what: &str, max_len: usize, f: &mut dyn FnMut() -> String, judge: &mut dyn FnMut(&Mu) -> Result<(), Failure>, t: &mut Tally| -> Result<u64, Failure> {
        let (st, r) = all_choices(max_len, 0, 3_000_000, |_| {
            let p = f();
            if p != want_path {
                return Err(bad("path", it, format!("{}: reported as {}", what, p)));
            }
            let m = read_one(&want_path, it, g)?;
            let _ = std::fs::remove_file(&want_path);
            judge(&m)
        });
        t.states += st.runs;
        t.transitions += st.decisions;
        t.validated += st.runs - st.cut;
        *t.extra.entry("runs_cut_at_the_decision_bound".into()).or_insert(0) += st.cut;
        r?;
        Ok(st.cut)
    };
    for n in 0..=nmax {
        for (single, end) in [(false, false), (false, true), (true, false), (true, true)] {
            let mut reached = BTreeSet::new();
            run("noise", len, &mut || generate_insert_noise_mutant(g, &c, &it.mu, Some(&d), "x", n, single, end), &mut |m| {
                let ins = judge_noise(m, it, n as usize, single, end)?;
                reached.extend(ins);
                Ok(())
            }, t)?;
            // any action of any component may be the noise
            let all: usize = it.parts.iter().map(|c| c.len() * 2 * it.mss).sum();
            if n == 1 && reached.len() != all {
                return Err(bad("noise-choice", it, format!("only {} of {} actions can be inserted", reached.len(), all)));
            }
        }
        let mut most = 0;
        let mut outs = BTreeSet::new();
        run("remove", len + 4, &mut || generate_remove_actions_mutant(g, &c, &it.mu, Some(&d), "x", n), &mut |m| {
            most = most.max(judge_removed(m, it, n as usize)?);
            outs.insert(m.clone());
            Ok(())
        }, t)?;
        let total: usize = it.mu.iter().map(|c| c.len()).sum();
        if most != (n as usize).min(total) {
            return Err(bad("removed-few", it, format!("never {} removals", n)));
        }
        if n == 1 && distinct && outs.iter().filter(|m| *m != &it.mu).count() != total {
            return Err(bad("removed-choice", it, format!("only {} of {} letters can be removed", outs.iter().filter(|m| *m != &it.mu).count(), total)));
        }
        let mut outs = BTreeSet::new();
        run("swap", len, &mut || generate_swap_actions_mutant(g, &c, &it.mu, Some(&d), "x", n), &mut |m| {
            let k = judge_swapped(m, it, n as usize)?;
            if n == 1 && distinct && k == 0 && it.mu.iter().any(|c| c.len() > 1) {
                return Err(bad("swapped", it, "nothing exchanged".into()));
            }
            outs.insert(m.clone());
            Ok(())
        }, t)?;
        let pairs: usize = it.mu.iter().map(|c| c.len() * c.len().saturating_sub(1) / 2).sum();
        if n == 1 && distinct && pairs > 0 && outs.len() != pairs {
            return Err(bad("swapped-choice", it, format!("{} outcomes for {} pairs of letters", outs.len(), pairs)));
        }
    }
    let other = other_of(it);
    for n in 0..=(it.mu.len() as u32 + 1) {
        let mut outs: BTreeSet<BTreeSet<usize>> = BTreeSet::new();
        run("cross", len, &mut || generate_swap_components_mutant(g, &c, &it.mu, &other, Some(&d), "x", n), &mut |m| {
            outs.insert(judge_crossed(m, it, &other, n as usize)?);
            Ok(())
        }, t)?;
        let k = it.mu.len();
        if n == 1 && k > 1 {
            let want: BTreeSet<BTreeSet<usize>> = (0..k).map(|i| if it.mu[i] == other[i] { BTreeSet::new() } else { vec![i].into_iter().collect() }).collect();
            if outs != want {
                return Err(bad("crossed-choice", it, format!("one component from {}: obtained {:?} instead of {:?}", show_mu(&other), outs, want)));
            }
        }
    }
    Ok(())
}

/// the commands of the tool: names of files and folders, defaults and options
fn m_cli(id: &str, it: &Item, w: &W, t: &mut Tally) -> Result<(), Failure> {
    let n = Names::std(LFS, MSS);
    let text = |mu: &Mu| {
        let mut s = String::from("{\n");
        for (c, m) in it.parts.iter().zip(mu) {
            let ls: Vec<&str> = c.iter().map(|l| n.lf[*l].as_str()).collect();
            s += &format!("[{}] {};\n", ls.join(","), m.iter().map(|l| n.letter(l)).collect::<Vec<_>>().join("."));
        }
        s + "}"
    };
    let setup = || {
        w.dir.clear();
        std::fs::write(w.dir.file("s.hsf"), n.hsf()).unwrap();
        std::fs::write(w.dir.file("tr.htf"), text(&it.mu)).unwrap();
        std::fs::write(w.dir.file("ot.htf"), text(&other_of(it))).unwrap();
    };
    let run = |args: &[&str], t: &mut Tally| -> Result<(), Failure> {
        setup();
        t.states += 1;
        t.transitions += 1;
        t.bump("runs_of_the_tool");
        let o = w.cli.run(args);
        if o.panicked() {
            return Err(bad("panic", it, format!("{:?}: {}", args, o.err)));
        }
        if std::fs::read_to_string(w.dir.file("tr.htf")).ok() != Some(text(&it.mu)) {
            return Err(bad("input", it, format!("{:?}: the input was modified", args)));
        }
        Ok(())
    };
    let files = |dir: &str| -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(w.dir.file(dir)).map(|r| r.map(|e| e.unwrap().file_name().to_str().unwrap().to_string()).collect()).unwrap_or_default();
        v.sort();
        v
    };
    let base = vec!["ot.htf".to_string(), "s.hsf".into(), "tr.htf".into()];
    if id == "M01" || id == "M02" {
        for k in [None, Some(K::Prefix), Some(K::Suffix), Some(K::Slice)] {
            for folder in [None, Some("f/g")] {
                for name in [None, Some("nn")] {
                    for rand in [None, Some(("3", false)), Some(("3", true))] {
                        if (id == "M01") != rand.is_none() {
                            continue;
                        }
                        let mut a = vec!["slice", "s.hsf", "tr.htf"];
                        if let Some(k) = k {
                            a.extend(["-k", k.word()]);
                        }
                        if let Some(f) = folder {
                            a.extend(["-p", f]);
                        }
                        if let Some(x) = name {
                            a.extend(["-n", x]);
                        }
                        if let Some((r, wide)) = rand {
                            a.extend(["-r", r]);
                            if wide {
                                a.push("-w");
                            }
                        }
                        run(&a, t)?;
                        let mut top = base.clone();
                        top.push(if folder.is_some() { "f".into() } else { "tr_slices".into() });
                        top.sort();
                        if files(".") != top {
                            return Err(bad("files", it, format!("{:?} leaves {:?}", a, files("."))));
                        }
                        let dir = w.dir.file(folder.unwrap_or("tr_slices"));
                        let kk = k.unwrap_or(K::Slice);
                        match rand {
                            None => judge_exhaustive(&dir, name.unwrap_or(""), kk, it, &w.g, t)?,
                            Some((_, wide)) => {
                                let got = judge_random(&dir, name.unwrap_or(""), kk, wide, 3, false, it, &w.g)?;
                                t.validated += got.len() as u64;
                            }
                        }
                    }
                }
            }
        }
        return Ok(());
    }
    for folder in [None, Some("f/g")] {
        for name in [None, Some("nn")] {
            for max in [None, Some("0"), Some("2")] {
                for (cmd, suffix, flags) in [
                    ("mutate_insert_noise", "insert_noise_mutant", vec![vec![], vec!["-u"], vec!["-e"], vec!["-u", "-e"]]),
                    ("mutate_remove_actions", "remove_actions_mutant", vec![vec![]]),
                    ("mutate_swap_actions", "swap_act_mutant", vec![vec![]]),
                    ("mutate_swap_components", "swap_comp_mutant", vec![vec![]]),
                ] {
                    for fl in flags {
                        let mut a = vec![cmd, "s.hsf", "tr.htf"];
                        if cmd == "mutate_swap_components" {
                            a.push("ot.htf");
                        }
                        if let Some(f) = folder {
                            a.extend(["-p", f]);
                        }
                        if let Some(x) = name {
                            a.extend(["-n", x]);
                        }
                        if let Some(x) = max {
                            a.extend(["-m", x]);
                        }
                        a.extend(fl.iter());
                        run(&a, t)?;
                        let file = format!("{}.htf", name.map(|x| x.to_string()).unwrap_or(format!("tr_{}", suffix)));
                        let mut top = base.clone();
                        top.push(if folder.is_some() { "f".into() } else { file.clone() });
                        top.sort();
                        if files(".") != top || folder.map(|f| files(f) != vec![file.clone()]).unwrap_or(false) {
                            return Err(bad("files", it, format!("{:?} leaves {:?}", a, files("."))));
                        }
                        let m = read_one(&w.dir.file(&format!("{}/{}", folder.unwrap_or("."), file)), it, &w.g)?;
                        t.validated += 1;
                        let max: usize = max.unwrap_or("1").parse().unwrap();
                        match cmd {
                            "mutate_insert_noise" => {
                                judge_noise(&m, it, max, fl.contains(&"-u"), fl.contains(&"-e"))?;
                            }
                            "mutate_remove_actions" => {
                                judge_removed(&m, it, max)?;
                            }
                            "mutate_swap_actions" => {
                                judge_swapped(&m, it, max)?;
                            }
                            _ => {
                                judge_crossed(&m, it, &other_of(it), max)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property id");
    let th = thorough();
    let mut r = Report::new(&id);
    let make = || {
        let dir = Scratch::new();
        W { cli: Cli::new(&dir.dir), dir, g: gen_ctx(LFS, MSS) }
    };
    let q = Quiet::new();
    let (mut its, cli): (Vec<Item>, Vec<Item>) = match id.as_str() {
        "M01" => (items(if th { 5 } else { 4 }, if th { 10 } else { 7 }, &[0, 1, 2], MSS), items(2, 4, &[2], MSS)),
        "M02" => (items(if th { 6 } else { 4 }, if th { 6 } else { 4 }, &[0, 2], MSS), items(2, if th { 4 } else { 3 }, &[2], MSS)),
        "M03" => (items(3, if th { 4 } else { 3 }, &[0, 1, 2], MSS), items(2, if th { 4 } else { 2 }, &[2], MSS)),
        _ => panic!("unknown property"),
    };
    match id.as_str() {
        "M01" => its.extend(long_items(if th { &[9, 11, 16, 33, 70] } else { &[9, 12, 17, 33] })),
        "M03" => its.extend(items(2, 2, &[0, 1], 1)),
        _ => {}
    }
    r.bounds = format!("{} multi-traces on all ordered partitions of {} lifelines ({} of them through the command line with every combination of options){}", its.len(), LFS, cli.len(),
        match id.as_str() { "M01" => ", all three kinds, with and without prefix", "M02" => ", every sequence of random decisions for 0 to 2 slices, every kind, wide or not", _ => ", every sequence of random decisions (up to the decision bound) for 0 to 2 modifications" });
    let n = (its.len() + cli.len()) as u64;
    r.sweep(n, make, |idx, w, t| {
        let i = idx as usize;
        t.items += 1;
        if i >= cli.len() {
            let it = &its[i - cli.len()];
            if idx % 53 == 7 {
                t.sample(|| format!("{}: {}", it.what, show_mu(&it.mu)));
            }
            let distinct = it.what.ends_with("style 0");
            let total: usize = it.mu.iter().map(|c| c.len()).sum();
            match id.as_str() {
                "M01" => m01(it, w, t),
                "M02" => m02(it, distinct, if total <= if th { 5 } else { 4 } { 2 } else { 1 }, w, t),
                _ => m03(it, distinct, if total <= if th { 3 } else { 2 } { 2 } else { 1 }, if th { 12 } else { 10 }, w, t),
            }
        } else {
            m_cli(&id, &cli[i], w, t)
        }
    });
    drop(q);
    std::process::exit(r.finish());
}
