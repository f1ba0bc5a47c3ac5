//! Reference readers of the textual formats, on token lists, written from the documented grammar.
//! They give the expected result, "syntax", or every naming/definition error of the text.
use std::collections::BTreeSet;

use hibou::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
use hibou::core::language::syntax::interaction::{Interaction, LoopKind};

use crate::hif::Names;

#[derive(Debug, Clone, PartialEq)]
pub enum Ref<T> {
    Ok(T),
    Syntax,
    /// any of these
    Err(BTreeSet<String>),
}

pub fn is_label(t: &str) -> bool {
    let mut c = t.chars();
    c.next().map(|x| x.is_alphabetic()).unwrap_or(false) && c.all(|x| x.is_alphabetic() || x.is_ascii_digit() || x == '_')
}

struct P<'a> {
    t: &'a [String],
    i: usize,
    n: &'a Names,
    errs: BTreeSet<String>,
    nerr: usize,
    /// whether each action read so far is well named
    valid: Vec<bool>,
}

type S<T> = Result<T, ()>;

impl<'a> P<'a> {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|x| x.as_str()).unwrap_or("")
    }
    fn at(&self, k: usize) -> &str {
        self.t.get(self.i + k).map(|x| x.as_str()).unwrap_or("")
    }
    fn eat(&mut self, x: &str) -> S<()> {
        if self.i < self.t.len() && self.peek() == x {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn label(&mut self) -> S<String> {
        if is_label(self.peek()) {
            self.i += 1;
            Ok(self.t[self.i - 1].clone())
        } else {
            Err(())
        }
    }
    fn list(&mut self) -> S<Vec<String>> {
        self.eat("(")?;
        let mut v = vec![self.label()?];
        while self.peek() == "," {
            self.i += 1;
            v.push(self.label()?);
        }
        self.eat(")")?;
        Ok(v)
    }
    fn err(&mut self, e: String) -> usize {
        self.errs.insert(e);
        self.nerr += 1;
        0
    }
    fn lf(&mut self, x: &str) -> usize {
        match self.n.lf.iter().position(|y| y == x) {
            Some(k) => k,
            None => self.err(format!("MissingLifelineDeclarationError({:?})", x)),
        }
    }
    fn ms(&mut self, x: &str) -> usize {
        match self.n.ms.iter().position(|y| y == x) {
            Some(k) => k,
            None => self.err(format!("MissingMessageDeclarationError({:?})", x)),
        }
    }
    fn lf_or_gt(&mut self, x: &str) -> EmissionTargetRef {
        if let Some(k) = self.n.lf.iter().position(|y| y == x) {
            EmissionTargetRef::Lifeline(k)
        } else if let Some(k) = self.n.gt.iter().position(|y| y == x) {
            EmissionTargetRef::Gate(k)
        } else {
            self.err(format!("MissingLifelineOrGateDeclarationError({:?})", x));
            EmissionTargetRef::Lifeline(usize::MAX)
        }
    }
    fn act(&mut self) -> S<TraceAction> {
        let l = self.label()?;
        let k = match self.peek() {
            "!" => TraceActionKind::Emission,
            "?" => TraceActionKind::Reception,
            _ => return Err(()),
        };
        self.i += 1;
        let m = self.label()?;
        let n = self.nerr;
        let l = self.lf(&l);
        let m = self.ms(&m);
        self.valid.push(n == self.nerr);
        Ok(TraceAction::new(l, k, m))
    }
    /// { act , act ... } with at least two actions
    fn set(&mut self) -> S<Vec<TraceAction>> {
        self.eat("{")?;
        let mut v = vec![self.act()?];
        self.eat(",")?;
        v.push(self.act()?);
        while self.peek() == "," {
            self.i += 1;
            v.push(self.act()?);
        }
        self.eat("}")?;
        Ok(v)
    }

    fn comm(&mut self) -> S<Interaction> {
        let mut origin = None;
        if is_label(self.peek()) && self.at(1) == "--" {
            origin = Some(self.label()?);
            self.i += 1;
        }
        let mut sync = CommunicationSynchronicity::Asynchronous;
        if self.peek() == "<" {
            match self.at(1) {
                "asynch" => {}
                "synch" => sync = CommunicationSynchronicity::Synchronous,
                _ => return Err(()),
            }
            self.i += 2;
            self.eat(">")?;
        }
        let m = self.label()?;
        self.eat("->")?;
        let targets = match self.peek() {
            "|" => {
                self.i += 1;
                vec![]
            }
            "(" => self.list()?,
            _ => vec![self.label()?],
        };
        let o = origin.map(|x| self.lf_or_gt(&x));
        let m = self.ms(&m);
        match o {
            Some(EmissionTargetRef::Lifeline(l)) => {
                let mut v = vec![];
                for x in &targets {
                    let r = self.lf_or_gt(x);
                    if v.contains(&r) {
                        self.err("EmissionDefinitionError".into());
                    }
                    v.push(r);
                }
                if l == usize::MAX {
                    // undeclared origin: the targets may be taken either way, but the origin is wrong first
                    return Ok(Interaction::Empty);
                }
                Ok(Interaction::Emission(EmissionAction::new(l, m, sync, v)))
            }
            o => {
                let mut v = vec![];
                for x in &targets {
                    let r = self.lf(x);
                    if v.contains(&r) {
                        self.err("EmissionDefinitionError".into());
                    }
                    v.push(r);
                }
                let g = match o {
                    Some(EmissionTargetRef::Gate(g)) => Some(g),
                    _ => None,
                };
                Ok(Interaction::Reception(ReceptionAction::new(g, m, sync, v)))
            }
        }
    }

    fn operands(&mut self) -> S<Vec<Interaction>> {
        self.eat("(")?;
        let mut v = vec![self.int()?];
        self.eat(",")?;
        v.push(self.int()?);
        while self.peek() == "," {
            self.i += 1;
            v.push(self.int()?);
        }
        self.eat(")")?;
        Ok(v)
    }

    fn int(&mut self) -> S<Interaction> {
        let (i, errs) = (self.i, self.errs.clone());
        if let Ok(x) = self.comm() {
            return Ok(x);
        }
        self.i = i;
        self.errs = errs;
        let k = self.peek().to_string();
        self.i += 1;
        let fold = |v: Vec<Interaction>, f: &dyn Fn(Box<Interaction>, Box<Interaction>) -> Interaction| {
            let mut it = v.into_iter().rev();
            let last = it.next().unwrap();
            it.fold(last, |acc, x| f(Box::new(x), Box::new(acc)))
        };
        match k.as_str() {
            "o" | "∅" => Ok(Interaction::Empty),
            "strict" => Ok(fold(self.operands()?, &|a, b| Interaction::Strict(a, b))),
            "seq" => Ok(fold(self.operands()?, &|a, b| Interaction::Seq(a, b))),
            "alt" => Ok(fold(self.operands()?, &|a, b| Interaction::Alt(a, b))),
            "par" => Ok(fold(self.operands()?, &|a, b| Interaction::Par(a, b))),
            "and" => Ok(fold(self.operands()?, &|a, b| Interaction::And(a, b))),
            "coreg" => {
                let l = self.list()?;
                let mut c: Vec<usize> = vec![];
                for x in &l {
                    let r = self.lf(x);
                    if c.contains(&r) {
                        self.err("OtherDefinitionError".into());
                    }
                    c.push(r);
                }
                Ok(fold(self.operands()?, &|a, b| Interaction::CoReg(c.clone(), a, b)))
            }
            "sync" => {
                let mut s = if self.peek() == "(" {
                    self.i += 1;
                    let a = self.act()?;
                    self.eat(")")?;
                    vec![a]
                } else {
                    self.set()?
                };
                s.sort();
                s.dedup();
                Ok(fold(self.operands()?, &|a, b| Interaction::Sync(s.clone(), a, b)))
            }
            "loopS" | "loopH" | "loopW" | "loopP" => {
                let kind = match k.as_str() {
                    "loopS" => LoopKind::SStrictSeq,
                    "loopH" => LoopKind::HHeadFirstWS,
                    "loopW" => LoopKind::WWeakSeq,
                    _ => LoopKind::PInterleaving,
                };
                self.eat("(")?;
                let a = self.int()?;
                self.eat(")")?;
                Ok(Interaction::Loop(kind, Box::new(a)))
            }
            _ => Err(()),
        }
    }

    fn trace(&mut self, unavailable: &BTreeSet<usize>, lfs: &mut BTreeSet<usize>, add: bool) -> S<Vec<BTreeSet<TraceAction>>> {
        let mut v = vec![];
        if !(is_label(self.peek()) || self.peek() == "{") {
            return Ok(v);
        }
        loop {
            let n = self.valid.len();
            let acts = if self.peek() == "{" { self.set()? } else { vec![self.act()?] };
            let valid = self.valid[n..].to_vec();
            for (a, ok) in acts.iter().zip(valid) {
                if ok {
                    if unavailable.contains(&a.lf_id) {
                        self.err("NonDisjointTraceComponents".into());
                    } else if add {
                        lfs.insert(a.lf_id);
                    } else if !lfs.contains(&a.lf_id) {
                        self.err("IllDefinedTraceComponents".into());
                    }
                }
            }
            v.push(acts.into_iter().collect());
            if self.peek() == "." {
                self.i += 1;
            } else {
                return Ok(v);
            }
        }
    }

    fn canal(&mut self, taken: &mut BTreeSet<usize>) -> S<(BTreeSet<usize>, Vec<BTreeSet<TraceAction>>)> {
        self.eat("[")?;
        let mut lfs = BTreeSet::new();
        let mut any = false;
        match self.peek() {
            "#any" => {
                any = true;
                self.i += 1;
            }
            "#all" => {
                lfs = (0..self.n.lf.len()).filter(|x| !taken.contains(x)).collect();
                self.i += 1;
            }
            _ => loop {
                let l = self.label()?;
                let n = self.nerr;
                let l = self.lf(&l);
                if self.nerr == n && taken.contains(&l) {
                    self.err("NonDisjointTraceComponents".into());
                }
                lfs.insert(l);
                if self.peek() != "," {
                    break;
                }
                self.i += 1;
            },
        }
        self.eat("]")?;
        let un = taken.clone();
        let t = self.trace(&un, &mut lfs, any)?;
        taken.extend(lfs.iter().cloned());
        Ok((lfs, t))
    }
}

fn end<T>(p: P, r: S<T>) -> Ref<T> {
    match r {
        Err(()) => Ref::Syntax,
        Ok(_) if p.i < p.t.len() => Ref::Syntax,
        Ok(_) if !p.errs.is_empty() => Ref::Err(p.errs),
        Ok(x) => Ref::Ok(x),
    }
}

pub fn read_hif(t: &[String], n: &Names) -> Ref<Interaction> {
    let mut p = P { t, i: 0, n, errs: BTreeSet::new(), nerr: 0, valid: vec![] };
    let r = p.int();
    end(p, r)
}

pub type Comps = Vec<(BTreeSet<usize>, Vec<BTreeSet<TraceAction>>)>;

pub fn read_htf(t: &[String], n: &Names) -> Ref<Comps> {
    let mut p = P { t, i: 0, n, errs: BTreeSet::new(), nerr: 0, valid: vec![] };
    fn go(p: &mut P) -> S<Comps> {
        let mut v: Comps = vec![];
        let mut taken = BTreeSet::new();
        if p.peek() == "{" && (p.at(1) == "[" || p.at(1) == "}" || p.at(1) == ";") {
            p.i += 1;
            if p.peek() == "[" {
                v.push(p.canal(&mut taken)?);
                while p.peek() == ";" && p.at(1) == "[" {
                    p.i += 1;
                    v.push(p.canal(&mut taken)?);
                }
            }
            if p.peek() == ";" {
                p.i += 1;
            }
            p.eat("}")?;
        } else if p.peek() == "[" {
            v.push(p.canal(&mut taken)?);
        } else {
            let mut l = BTreeSet::new();
            let t = p.trace(&BTreeSet::new(), &mut l, true)?;
            v.push((l, t));
        }
        let got: BTreeSet<usize> = v.iter().flat_map(|x| x.0.iter().cloned()).collect();
        for l in 0..p.n.lf.len() {
            if !got.contains(&l) {
                v.push((vec![l].into_iter().collect(), vec![]));
            }
        }
        Ok(v)
    }
    let r = go(&mut p);
    end(p, r)
}

/// names declared in a signature: lifelines, messages, gates in order of first occurrence
pub fn read_hsf(t: &[String]) -> Ref<Names> {
    let empty = Names { lf: vec![], ms: vec![], gt: vec![] };
    let mut out = Names { lf: vec![], ms: vec![], gt: vec![] };
    let mut p = P { t, i: 0, n: &empty, errs: BTreeSet::new(), nerr: 0, valid: vec![] };
    let mut seen: Vec<String> = vec![];
    let mut dup = false;
    while p.i < t.len() {
        let s = p.peek().to_string();
        let (into, key): (&mut Vec<String>, &str) = match s.as_str() {
            "@lifeline" => (&mut out.lf, "l"),
            "@message" => (&mut out.ms, "m"),
            "@gate" => (&mut out.gt, "g"),
            _ => return Ref::Syntax,
        };
        dup |= seen.iter().any(|x| x == key);
        seen.push(key.to_string());
        p.i += 1;
        let r = (|| -> S<Vec<String>> {
            p.eat("{")?;
            let mut v = vec![p.label()?];
            while p.peek() == ";" && p.at(1) != "}" {
                p.i += 1;
                v.push(p.label()?);
            }
            if p.peek() == ";" {
                p.i += 1;
            }
            p.eat("}")?;
            Ok(v)
        })();
        match r {
            Err(()) => return Ref::Syntax,
            Ok(v) => {
                for x in v {
                    if !into.contains(&x) {
                        into.push(x);
                    }
                }
            }
        }
    }
    if dup {
        return Ref::Err(vec!["HsfSetupError".to_string()].into_iter().collect());
    }
    Ref::Ok(out)
}

/// tokens of an interaction; nested operators of the same kind are written as one when `nary`
pub fn tokens(i: &Interaction, n: &Names, nary: bool) -> Vec<String> {
    let mut v = vec![];
    toks(i, n, nary, &mut v);
    v
}

fn push(v: &mut Vec<String>, s: &str) {
    v.push(s.to_string());
}

fn list(v: &mut Vec<String>, l: &[String]) {
    push(v, "(");
    for (k, x) in l.iter().enumerate() {
        if k > 0 {
            push(v, ",");
        }
        push(v, x);
    }
    push(v, ")");
}

fn act_toks(a: &TraceAction, n: &Names, v: &mut Vec<String>) {
    push(v, &n.lf[a.lf_id]);
    push(v, if a.act_kind == TraceActionKind::Emission { "!" } else { "?" });
    push(v, &n.ms[a.ms_id]);
}

pub fn letter_toks(l: &BTreeSet<TraceAction>, n: &Names, v: &mut Vec<String>) {
    if l.len() == 1 {
        act_toks(l.iter().next().unwrap(), n, v);
    } else {
        push(v, "{");
        for (k, a) in l.iter().enumerate() {
            if k > 0 {
                push(v, ",");
            }
            act_toks(a, n, v);
        }
        push(v, "}");
    }
}

fn toks(i: &Interaction, n: &Names, nary: bool, v: &mut Vec<String>) {
    let sy = |s: &CommunicationSynchronicity, v: &mut Vec<String>| {
        if *s == CommunicationSynchronicity::Synchronous {
            push(v, "<");
            push(v, "synch");
            push(v, ">");
        } else if nary {
            push(v, "<");
            push(v, "asynch");
            push(v, ">");
        }
    };
    let targets = |l: Vec<String>, v: &mut Vec<String>| {
        push(v, "->");
        match l.len() {
            0 => push(v, "|"),
            1 if !nary => push(v, &l[0]),
            _ => list(v, &l),
        }
    };
    let ops = |same: &dyn Fn(&Interaction) -> Option<(Interaction, Interaction)>, a: &Interaction, b: &Interaction, v: &mut Vec<String>| {
        push(v, "(");
        toks(a, n, nary, v);
        let mut rest = b.clone();
        while nary {
            match same(&rest) {
                Some((x, y)) => {
                    push(v, ",");
                    toks(&x, n, nary, v);
                    rest = y;
                }
                None => break,
            }
        }
        push(v, ",");
        toks(&rest, n, nary, v);
        push(v, ")");
    };
    macro_rules! bin {
        ($kw:expr, $var:ident, $a:expr, $b:expr) => {{
            push(v, $kw);
            ops(&|x| if let Interaction::$var(p, q) = x { Some(((**p).clone(), (**q).clone())) } else { None }, $a, $b, v);
        }};
    }
    match i {
        Interaction::Empty => push(v, if nary { "∅" } else { "o" }),
        Interaction::Emission(e) => {
            push(v, &n.lf[e.origin_lf_id]);
            push(v, "--");
            sy(&e.synchronicity, v);
            push(v, &n.ms[e.ms_id]);
            targets(e.targets.iter().map(|t| match t {
                EmissionTargetRef::Lifeline(l) => n.lf[*l].clone(),
                EmissionTargetRef::Gate(g) => n.gt[*g].clone(),
            }).collect(), v);
        }
        Interaction::Reception(r) => {
            if let Some(g) = r.origin_gt_id {
                push(v, &n.gt[g]);
                push(v, "--");
            }
            sy(&r.synchronicity, v);
            push(v, &n.ms[r.ms_id]);
            targets(r.recipients.iter().map(|l| n.lf[*l].clone()).collect(), v);
        }
        Interaction::Strict(a, b) => bin!("strict", Strict, a, b),
        Interaction::Seq(a, b) => bin!("seq", Seq, a, b),
        Interaction::Alt(a, b) => bin!("alt", Alt, a, b),
        Interaction::Par(a, b) => bin!("par", Par, a, b),
        Interaction::And(a, b) => bin!("and", And, a, b),
        Interaction::CoReg(c, a, b) => {
            push(v, "coreg");
            list(v, &c.iter().map(|l| n.lf[*l].clone()).collect::<Vec<_>>());
            ops(&|x| if let Interaction::CoReg(d, p, q) = x { if c == d { Some(((**p).clone(), (**q).clone())) } else { None } } else { None }, a, b, v);
        }
        Interaction::Sync(s, a, b) => {
            push(v, "sync");
            if s.len() == 1 {
                push(v, "(");
                act_toks(&s[0], n, v);
                push(v, ")");
            } else {
                push(v, "{");
                for (k, a) in s.iter().enumerate() {
                    if k > 0 {
                        push(v, ",");
                    }
                    act_toks(a, n, v);
                }
                push(v, "}");
            }
            ops(&|x| if let Interaction::Sync(d, p, q) = x { if s == d { Some(((**p).clone(), (**q).clone())) } else { None } } else { None }, a, b, v);
        }
        Interaction::Loop(k, a) => {
            push(v, match k {
                LoopKind::SStrictSeq => "loopS",
                LoopKind::HHeadFirstWS => "loopH",
                LoopKind::WWeakSeq => "loopW",
                LoopKind::PInterleaving => "loopP",
            });
            push(v, "(");
            toks(a, n, nary, v);
            push(v, ")");
        }
    }
}

/// right-nested form of nested operators of the same kind (what reading an n-ary operator gives)
pub fn flatten(i: &Interaction) -> Interaction {
    fn parts(i: &Interaction, same: &dyn Fn(&Interaction) -> bool, v: &mut Vec<Interaction>) {
        if same(i) {
            match i {
                Interaction::Strict(a, b) | Interaction::Seq(a, b) | Interaction::Alt(a, b) | Interaction::Par(a, b) | Interaction::CoReg(_, a, b) => {
                    parts(a, same, v);
                    parts(b, same, v);
                }
                _ => unreachable!(),
            }
        } else {
            v.push(flatten(i));
        }
    }
    fn fold(v: Vec<Interaction>, f: &dyn Fn(Box<Interaction>, Box<Interaction>) -> Interaction) -> Interaction {
        let mut it = v.into_iter().rev();
        let last = it.next().unwrap();
        it.fold(last, |acc, x| f(Box::new(x), Box::new(acc)))
    }
    let mut v = vec![];
    match i {
        Interaction::Strict(_, _) => {
            parts(i, &|x| matches!(x, Interaction::Strict(_, _)), &mut v);
            fold(v, &|a, b| Interaction::Strict(a, b))
        }
        Interaction::Seq(_, _) => {
            parts(i, &|x| matches!(x, Interaction::Seq(_, _)), &mut v);
            fold(v, &|a, b| Interaction::Seq(a, b))
        }
        Interaction::Alt(_, _) => {
            parts(i, &|x| matches!(x, Interaction::Alt(_, _)), &mut v);
            fold(v, &|a, b| Interaction::Alt(a, b))
        }
        Interaction::Par(_, _) => {
            parts(i, &|x| matches!(x, Interaction::Par(_, _)), &mut v);
            fold(v, &|a, b| Interaction::Par(a, b))
        }
        Interaction::CoReg(c, _, _) => {
            parts(i, &|x| matches!(x, Interaction::CoReg(d, _, _) if c == d), &mut v);
            fold(v, &|a, b| Interaction::CoReg(c.clone(), a, b))
        }
        Interaction::Sync(s, a, b) => {
            let mut s = s.clone();
            s.sort();
            s.dedup();
            Interaction::Sync(s, Box::new(flatten(a)), Box::new(flatten(b)))
        }
        Interaction::And(a, b) => Interaction::And(Box::new(flatten(a)), Box::new(flatten(b))),
        Interaction::Loop(k, a) => Interaction::Loop(k.clone(), Box::new(flatten(a))),
        x => x.clone(),
    }
}
