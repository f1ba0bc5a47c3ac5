//! Independent denotational oracle: bounded trace languages of interactions, computed by
//! composition of word sets (never by executing the operational rules of the code under test).
//!
//! A word is a u64 holding up to 8 letters, one per byte, first letter in the lowest byte.
//! A letter is an interned set of trace actions (several for a synchronous communication).
use std::collections::{BTreeSet, HashMap};

use hibou::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou::core::language::syntax::action::{CommunicationSynchronicity, EmissionTargetRef};
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};

pub type Letter = BTreeSet<TraceAction>;
pub type Word = u64;
/// sorted, without duplicates
pub type Lang = Vec<Word>;

pub fn wlen(w: Word) -> usize {
    ((64 - w.leading_zeros() as usize) + 7) / 8
}
#[inline]
fn head(w: Word) -> u8 {
    (w & 0xff) as u8
}
#[inline]
fn tail(w: Word) -> Word {
    w >> 8
}
#[inline]
pub fn cat(u: Word, lu: usize, v: Word) -> Word {
    if lu >= 8 { u } else { u | (v << (8 * lu)) }
}
#[inline]
pub fn cons(a: u8, w: Word) -> Word {
    (w << 8) | a as u64
}

fn norm(mut v: Vec<Word>) -> Lang {
    v.sort_unstable();
    v.dedup();
    v
}

/// Interning of letters; letter ids start at 1.
pub struct Lx {
    pub letters: Vec<Letter>,
    masks: Vec<u32>,
    ids: HashMap<Letter, u8>,
}

impl Lx {
    pub fn new() -> Lx {
        Lx { letters: vec![BTreeSet::new()], masks: vec![0], ids: HashMap::new() }
    }

    pub fn id(&mut self, l: &Letter) -> u8 {
        if let Some(i) = self.ids.get(l) {
            return *i;
        }
        let i = self.letters.len();
        assert!(i < 256, "letter space exhausted");
        self.letters.push(l.clone());
        let mut m = 0u32;
        for a in l {
            m |= 1 << a.lf_id;
        }
        self.masks.push(m);
        self.ids.insert(l.clone(), i as u8);
        i as u8
    }

    pub fn single(&mut self, lf: usize, k: TraceActionKind, ms: usize) -> u8 {
        let mut l = BTreeSet::new();
        l.insert(TraceAction::new(lf, k, ms));
        self.id(&l)
    }

    pub fn letter(&self, id: u8) -> &Letter {
        &self.letters[id as usize]
    }

    pub fn mask(&self, id: u8) -> u32 {
        self.masks[id as usize]
    }

    pub fn show(&self, w: Word) -> String {
        let mut v = vec![];
        let mut w = w;
        while w != 0 {
            let l = &self.letters[head(w) as usize];
            let s: Vec<String> = l.iter().map(|a| format!("{}{}{}", (b'a' + a.lf_id as u8) as char,
                                                         if a.act_kind == TraceActionKind::Emission { "!" } else { "?" },
                                                         (b'm' + a.ms_id as u8) as char)).collect();
            v.push(if s.len() == 1 { s[0].clone() } else { format!("{{{}}}", s.join(",")) });
            w = tail(w);
        }
        if v.is_empty() { "ε".to_string() } else { v.join(".") }
    }

    fn word_mask(&self, w: Word) -> u32 {
        let mut m = 0;
        let mut w = w;
        while w != 0 {
            m |= self.masks[head(w) as usize];
            w = tail(w);
        }
        m
    }

    // ---- word level operators -------------------------------------------------------------

    /// all interleavings of u and v in which a letter of v overtakes the letters of u only if it
    /// shares no lifeline (outside `free`) with them
    fn weak(&self, u: Word, v: Word, free: u32, pre: Word, n: usize, out: &mut Vec<Word>) {
        if v == 0 {
            out.push(cat(pre, n, u));
            return;
        }
        if u == 0 {
            out.push(cat(pre, n, v));
            return;
        }
        self.weak(tail(u), v, free, pre | ((head(u) as u64) << (8 * n)), n + 1, out);
        if self.masks[head(v) as usize] & !free & self.word_mask(u) == 0 {
            self.weak(u, tail(v), free, pre | ((head(v) as u64) << (8 * n)), n + 1, out);
        }
    }

    fn sync_words(&mut self, s: &BTreeSet<TraceAction>, u: Word, v: Word, pre: Word, n: usize, k: usize, out: &mut Vec<Word>) {
        if u == 0 && v == 0 {
            out.push(pre);
            return;
        }
        if n >= k {
            return;
        }
        let iu: Letter = if u != 0 { self.letters[head(u) as usize].intersection(s).cloned().collect() } else { BTreeSet::new() };
        let iv: Letter = if v != 0 { self.letters[head(v) as usize].intersection(s).cloned().collect() } else { BTreeSet::new() };
        if u != 0 && iu.is_empty() {
            self.sync_words(s, tail(u), v, pre | ((head(u) as u64) << (8 * n)), n + 1, k, out);
        }
        if v != 0 && iv.is_empty() {
            self.sync_words(s, u, tail(v), pre | ((head(v) as u64) << (8 * n)), n + 1, k, out);
        }
        if u != 0 && v != 0 && !iu.is_empty() && iu == iv {
            let un: Letter = self.letters[head(u) as usize].union(&self.letters[head(v) as usize]).cloned().collect();
            let id = self.id(&un);
            self.sync_words(s, tail(u), tail(v), pre | ((id as u64) << (8 * n)), n + 1, k, out);
        }
    }

    // ---- language level operators ---------------------------------------------------------

    pub fn l_concat(&self, a: &Lang, b: &Lang, k: usize) -> Lang {
        let mut out = vec![];
        for &u in a {
            let lu = wlen(u);
            for &v in b {
                if lu + wlen(v) <= k {
                    out.push(cat(u, lu, v));
                }
            }
        }
        norm(out)
    }

    pub fn l_weak(&self, a: &Lang, b: &Lang, free: u32, k: usize) -> Lang {
        let mut out = vec![];
        for &u in a {
            let lu = wlen(u);
            for &v in b {
                if lu + wlen(v) <= k {
                    self.weak(u, v, free, 0, 0, &mut out);
                }
            }
        }
        norm(out)
    }

    pub fn l_union(a: &Lang, b: &Lang) -> Lang {
        let mut v = a.clone();
        v.extend_from_slice(b);
        norm(v)
    }

    pub fn l_sync(&mut self, s: &BTreeSet<TraceAction>, a: &Lang, b: &Lang, k: usize) -> Lang {
        let mut out = vec![];
        for &u in a {
            for &v in b {
                self.sync_words(s, u, v, 0, 0, k, &mut out);
            }
        }
        norm(out)
    }

    /// one more (non-empty) iteration in front
    pub fn l_iter(&self, kind: &LoopKind, a: &Lang, rest: &Lang, k: usize) -> Lang {
        let mut out = vec![];
        for &u in a {
            if u == 0 {
                continue;
            }
            let lu = wlen(u);
            for &v in rest {
                if lu + wlen(v) > k {
                    continue;
                }
                match kind {
                    LoopKind::SStrictSeq => out.push(cat(u, lu, v)),
                    LoopKind::WWeakSeq => self.weak(u, v, 0, 0, 0, &mut out),
                    LoopKind::PInterleaving => self.weak(u, v, !0, 0, 0, &mut out),
                    LoopKind::HHeadFirstWS => self.weak(tail(u), v, 0, head(u) as u64, 1, &mut out),
                }
            }
        }
        norm(out)
    }

    pub fn l_star(&self, kind: &LoopKind, a: &Lang, k: usize) -> Lang {
        let base: Lang = a.iter().cloned().filter(|w| *w != 0).collect();
        let mut all: Lang = vec![0];
        let mut fresh: Lang = vec![0];
        while !fresh.is_empty() {
            let out = self.l_iter(kind, &base, &fresh, k);
            fresh = out.into_iter().filter(|w| all.binary_search(w).is_err()).collect();
            if !fresh.is_empty() {
                all.extend_from_slice(&fresh);
                all.sort_unstable();
            }
        }
        all
    }

    /// words of length at most k (k <= 7) of the trace language of `i`
    pub fn lang(&mut self, i: &Interaction, k: usize) -> Lang {
        match i {
            Interaction::Empty => vec![0],
            Interaction::Emission(em) => {
                let e = TraceAction::new(em.origin_lf_id, TraceActionKind::Emission, em.ms_id);
                let tg: Vec<usize> = em.targets.iter().filter_map(|t| match t {
                    EmissionTargetRef::Lifeline(l) => Some(*l),
                    _ => None,
                }).collect();
                match em.synchronicity {
                    CommunicationSynchronicity::Synchronous => {
                        let mut l: Letter = BTreeSet::new();
                        l.insert(e);
                        for t in tg {
                            l.insert(TraceAction::new(t, TraceActionKind::Reception, em.ms_id));
                        }
                        let id = self.id(&l);
                        if k >= 1 { vec![id as u64] } else { vec![] }
                    }
                    CommunicationSynchronicity::Asynchronous => {
                        let mut l: Letter = BTreeSet::new();
                        l.insert(e);
                        let id = self.id(&l);
                        let first: Lang = if k >= 1 { vec![id as u64] } else { vec![] };
                        let rest = self.any_order(&tg, em.ms_id, k);
                        self.l_concat(&first, &rest, k)
                    }
                }
            }
            Interaction::Reception(rc) => match rc.synchronicity {
                CommunicationSynchronicity::Synchronous => {
                    if rc.recipients.is_empty() {
                        return vec![0];
                    }
                    let mut l: Letter = BTreeSet::new();
                    for t in &rc.recipients {
                        l.insert(TraceAction::new(*t, TraceActionKind::Reception, rc.ms_id));
                    }
                    let id = self.id(&l);
                    if k >= 1 { vec![id as u64] } else { vec![] }
                }
                CommunicationSynchronicity::Asynchronous => self.any_order(&rc.recipients, rc.ms_id, k),
            },
            Interaction::Strict(a, b) => {
                let (x, y) = (self.lang(a, k), self.lang(b, k));
                self.l_concat(&x, &y, k)
            }
            Interaction::Seq(a, b) => {
                let (x, y) = (self.lang(a, k), self.lang(b, k));
                self.l_weak(&x, &y, 0, k)
            }
            Interaction::CoReg(cr, a, b) => {
                let mut free = 0u32;
                for l in cr {
                    free |= 1 << l;
                }
                let (x, y) = (self.lang(a, k), self.lang(b, k));
                self.l_weak(&x, &y, free, k)
            }
            Interaction::Alt(a, b) => {
                let (x, y) = (self.lang(a, k), self.lang(b, k));
                Lx::l_union(&x, &y)
            }
            Interaction::Par(a, b) => {
                let (x, y) = (self.lang(a, k), self.lang(b, k));
                self.l_weak(&x, &y, !0, k)
            }
            Interaction::Loop(kind, a) => {
                let x = self.lang(a, k);
                self.l_star(kind, &x, k)
            }
            Interaction::Sync(s, a, b) => {
                let s: BTreeSet<TraceAction> = s.iter().cloned().collect();
                let (x, y) = (self.lang(a, k), self.lang(b, k));
                self.l_sync(&s, &x, &y, k)
            }
            _ => panic!("operator outside the modelled language"),
        }
    }

    /// each lifeline receives once, in any order
    fn any_order(&mut self, lfs: &[usize], ms: usize, k: usize) -> Lang {
        let mut acc: Lang = vec![0];
        for l in lfs {
            let id = self.single(*l, TraceActionKind::Reception, ms);
            let one: Lang = if k >= 1 { vec![id as u64] } else { vec![] };
            acc = self.l_weak(&acc, &one, !0, k);
        }
        acc
    }

    // ---- derived notions ------------------------------------------------------------------

    /// a.w in lang for some w: the w's
    pub fn residual(l: &Lang, a: u8) -> Lang {
        norm(l.iter().cloned().filter(|w| head(*w) == a && *w != 0).map(tail).collect())
    }

    pub fn heads(l: &Lang) -> Vec<u8> {
        let mut v: Vec<u8> = l.iter().filter(|w| **w != 0).map(|w| head(*w)).collect();
        v.sort_unstable();
        v.dedup();
        v
    }

    /// removes the actions of the lifelines in `mask` from each word
    pub fn project_out(&mut self, l: &Lang, mask: u32) -> Lang {
        let mut out = vec![];
        for &w in l {
            let mut r = 0u64;
            let mut n = 0;
            let mut w = w;
            while w != 0 {
                let h = head(w);
                if self.masks[h as usize] & mask == 0 {
                    r |= (h as u64) << (8 * n);
                    n += 1;
                } else {
                    let rem: Letter = self.letters[h as usize].iter().cloned().filter(|a| mask & (1 << a.lf_id) == 0).collect();
                    if !rem.is_empty() {
                        let id = self.id(&rem);
                        r |= (id as u64) << (8 * n);
                        n += 1;
                    }
                }
                w = tail(w);
            }
            out.push(r);
        }
        norm(out)
    }

    /// the tuple of local views (one word of single actions per lifeline not in `mask`)
    pub fn local_views(&mut self, w: Word, lfs: usize, mask: u32) -> Vec<Word> {
        let mut out = vec![0u64; lfs];
        let mut n = vec![0usize; lfs];
        for l in self.letters_of(w) {
            for a in l {
                if mask & (1 << a.lf_id) == 0 {
                    let id = self.single(a.lf_id, a.act_kind, a.ms_id);
                    out[a.lf_id] |= (id as u64) << (8 * n[a.lf_id]);
                    n[a.lf_id] += 1;
                }
            }
        }
        out
    }

    pub fn views_of(&mut self, l: &Lang, lfs: usize, mask: u32) -> std::collections::HashSet<Vec<Word>> {
        l.iter().map(|w| self.local_views(*w, lfs, mask)).collect()
    }

    pub fn word_of(&mut self, ls: &[Letter]) -> Word {
        let mut w = 0u64;
        for (n, l) in ls.iter().enumerate() {
            w |= (self.id(l) as u64) << (8 * n);
        }
        w
    }

    pub fn letters_of(&self, w: Word) -> Vec<Letter> {
        let mut v = vec![];
        let mut w = w;
        while w != 0 {
            v.push(self.letters[head(w) as usize].clone());
            w = tail(w);
        }
        v
    }

    pub fn lf_mask_of(&self, w: Word) -> u32 {
        self.word_mask(w)
    }

    pub fn show_lang(&self, l: &Lang) -> String {
        let mut v: Vec<String> = l.iter().take(60).map(|w| self.show(*w)).collect();
        if l.len() > 60 {
            v.push(format!("… {} words", l.len()));
        }
        format!("{{{}}}", v.join(" ; "))
    }

    pub fn diff(&self, name_a: &str, a: &Lang, name_b: &str, b: &Lang) -> String {
        let oa: Lang = a.iter().cloned().filter(|w| b.binary_search(w).is_err()).collect();
        let ob: Lang = b.iter().cloned().filter(|w| a.binary_search(w).is_err()).collect();
        format!("only in {}: {}\nonly in {}: {}", name_a, self.show_lang(&oa), name_b, self.show_lang(&ob))
    }
}

pub fn is_subset(a: &Lang, b: &Lang) -> bool {
    a.iter().all(|w| b.binary_search(w).is_ok())
}

/// words of length <= k
pub fn cut(l: &Lang, k: usize) -> Lang {
    l.iter().cloned().filter(|w| wlen(*w) <= k).collect()
}

/// words of length <= k of a term by number of loop iterations started (index) up to n
pub fn costed(lx: &mut Lx, i: &Interaction, k: usize, n: usize) -> Vec<Lang> {
    let mut out: Vec<Lang> = vec![vec![]; n + 1];
    let bin = |lx: &mut Lx, a: &Interaction, b: &Interaction, f: &mut dyn FnMut(&mut Lx, &Lang, &Lang) -> Lang| -> Vec<Lang> {
        let (x, y) = (costed(lx, a, k, n), costed(lx, b, k, n));
        let mut out: Vec<Lang> = vec![vec![]; n + 1];
        for c in 0..=n {
            for d in 0..=(n - c) {
                if !x[c].is_empty() && !y[d].is_empty() {
                    let l = f(lx, &x[c], &y[d]);
                    out[c + d] = Lx::l_union(&out[c + d], &l);
                }
            }
        }
        out
    };
    match i {
        Interaction::Strict(a, b) => bin(lx, a, b, &mut |lx, x, y| lx.l_concat(x, y, k)),
        Interaction::Seq(a, b) => bin(lx, a, b, &mut |lx, x, y| lx.l_weak(x, y, 0, k)),
        Interaction::CoReg(c, a, b) => {
            let f: u32 = c.iter().map(|l| 1u32 << l).sum();
            bin(lx, a, b, &mut |lx, x, y| lx.l_weak(x, y, f, k))
        }
        Interaction::Par(a, b) => bin(lx, a, b, &mut |lx, x, y| lx.l_weak(x, y, !0, k)),
        Interaction::Sync(s, a, b) => {
            let s: BTreeSet<_> = s.iter().cloned().collect();
            bin(lx, a, b, &mut |lx, x, y| lx.l_sync(&s, x, y, k))
        }
        Interaction::Alt(a, b) => {
            let (x, y) = (costed(lx, a, k, n), costed(lx, b, k, n));
            for c in 0..=n {
                out[c] = Lx::l_union(&x[c], &y[c]);
            }
            out
        }
        Interaction::Loop(kind, a) => {
            let x = costed(lx, a, k, n);
            out[0] = vec![0];
            for c in 1..=n {
                // last iteration added in front: one more than what its body costs
                for d in 0..c {
                    if x[d].is_empty() || out[c - 1 - d].is_empty() {
                        continue;
                    }
                    let rest = out[c - 1 - d].clone();
                    let l = lx.l_iter(kind, &x[d], &rest, k);
                    out[c] = Lx::l_union(&out[c], &l);
                }
            }
            out
        }
        _ => {
            out[0] = lx.lang(i, k);
            out
        }
    }
}
