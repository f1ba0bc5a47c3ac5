//! Automata drawn as graphs: reading them back, and exact comparisons.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

use crate::lang::Letter;

#[derive(Debug, Clone, Default)]
pub struct Aut {
    /// None is the silent letter
    pub trans: Vec<Vec<(Option<String>, usize)>>,
    pub init: BTreeSet<usize>,
    pub fin: BTreeSet<usize>,
}

pub const SILENT: &str = "&#x3B5;";

fn attr(l: &str, name: &str) -> Option<String> {
    let k = l.find(&format!("{}=", name))?;
    let rest = &l[k + name.len() + 1..];
    if let Some(r) = rest.strip_prefix('"') {
        return r.split('"').next().map(|x| x.to_string());
    }
    Some(rest.split(|c| c == ',' || c == ';' || c == ']').next().unwrap().to_string())
}

/// one statement per line: S<n> [...]; I<n> [shape=point]; I<n>->S<m>; S<n>->S<m> [label=...]
pub fn read_automaton(text: &str) -> Result<Aut, String> {
    let mut ids: BTreeMap<String, usize> = BTreeMap::new();
    let mut entries: BTreeSet<String> = BTreeSet::new();
    let mut edges: Vec<(String, String, Option<String>)> = vec![];
    let mut a = Aut::default();
    for l in text.lines() {
        let l = l.trim().trim_end_matches('}').trim();
        if l.is_empty() || l.starts_with("digraph") || l.starts_with("compound") {
            continue;
        }
        let head = l.split('[').next().unwrap().trim().trim_end_matches(';').trim().to_string();
        if let Some((x, y)) = head.split_once("->") {
            edges.push((x.trim().into(), y.trim().into(), if l.contains('[') { attr(l, "label") } else { None }));
            continue;
        }
        match attr(l, "shape").as_deref() {
            Some("point") => {
                entries.insert(head);
            }
            Some(s) => {
                let n = a.trans.len();
                if ids.insert(head.clone(), n).is_some() {
                    return Err(format!("{} is drawn twice", head));
                }
                a.trans.push(vec![]);
                if s == "doublecircle" {
                    a.fin.insert(n);
                }
            }
            None => return Err(format!("line {}", l)),
        }
    }
    for (x, y, lab) in edges {
        let to = *ids.get(&y).ok_or(format!("edge to {}", y))?;
        if entries.contains(&x) {
            a.init.insert(to);
            continue;
        }
        let from = *ids.get(&x).ok_or(format!("edge from {}", x))?;
        let lab = lab.ok_or(format!("edge {} -> {} without label", x, y))?;
        for p in lab.split('|') {
            let p = p.trim();
            a.trans[from].push((if p == SILENT || p.is_empty() { None } else { Some(p.to_string()) }, to));
        }
    }
    Ok(a)
}

impl Aut {
    pub fn silent(&self) -> bool {
        self.trans.iter().flatten().any(|(l, _)| l.is_none())
    }

    fn closure(&self, s: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut out = s.clone();
        let mut todo: Vec<usize> = s.into_iter().collect();
        while let Some(x) = todo.pop() {
            for (l, y) in &self.trans[x] {
                if l.is_none() && out.insert(*y) {
                    todo.push(*y);
                }
            }
        }
        out
    }

    pub fn start(&self) -> BTreeSet<usize> {
        self.closure(self.init.clone())
    }

    pub fn step(&self, s: &BTreeSet<usize>, l: &str) -> BTreeSet<usize> {
        self.closure(s.iter().flat_map(|x| self.trans[*x].iter().filter(|(m, _)| m.as_deref() == Some(l)).map(|(_, y)| *y)).collect())
    }

    pub fn accepts(&self, s: &BTreeSet<usize>) -> bool {
        s.iter().any(|x| self.fin.contains(x))
    }

    pub fn letters(&self) -> BTreeSet<String> {
        self.trans.iter().flatten().filter_map(|(l, _)| l.clone()).collect()
    }

    /// the letters for which `f` holds become silent
    pub fn erase(&self, f: &dyn Fn(&str) -> bool) -> Aut {
        let mut a = self.clone();
        for t in a.trans.iter_mut().flatten() {
            if t.0.as_deref().map(f).unwrap_or(false) {
                t.0 = None;
            }
        }
        a
    }

    /// a word that only one of the two accepts
    pub fn differ(&self, b: &Aut, states: &mut u64) -> Option<Vec<String>> {
        let letters: BTreeSet<String> = self.letters().union(&b.letters()).cloned().collect();
        let s = (self.start(), b.start());
        let mut seen: BTreeSet<(BTreeSet<usize>, BTreeSet<usize>)> = BTreeSet::new();
        seen.insert(s.clone());
        let mut q = VecDeque::from(vec![(s, vec![])]);
        while let Some(((x, y), w)) = q.pop_front() {
            *states += 1;
            if self.accepts(&x) != b.accepts(&y) {
                return Some(w);
            }
            for l in &letters {
                let n = (self.step(&x, l), b.step(&y, l));
                if seen.insert(n.clone()) {
                    let mut w2 = w.clone();
                    w2.push(l.clone());
                    q.push_back((n, w2));
                }
            }
        }
        None
    }

    pub fn deterministic(&self) -> bool {
        self.init.len() <= 1 && self.trans.iter().all(|t| {
            let l: BTreeSet<_> = t.iter().map(|x| &x.0).collect();
            l.len() == t.len() && !l.contains(&None)
        })
    }

    /// number of states of the smallest deterministic automaton of the same language, without dead
    /// state; at least 1
    pub fn minimal(&self) -> usize {
        let letters: Vec<String> = self.letters().into_iter().collect();
        let mut ids: HashMap<BTreeSet<usize>, usize> = HashMap::new();
        let mut list = vec![self.start()];
        ids.insert(list[0].clone(), 0);
        let mut rows: Vec<Vec<usize>> = vec![];
        let mut at = 0;
        while at < list.len() {
            let s = list[at].clone();
            let mut row = vec![];
            for l in &letters {
                let n = self.step(&s, l);
                let next = list.len();
                let k = *ids.entry(n.clone()).or_insert(next);
                if k == next {
                    list.push(n);
                }
                row.push(k);
            }
            rows.push(row);
            at += 1;
        }
        let mut class: Vec<usize> = list.iter().map(|s| self.accepts(s) as usize).collect();
        loop {
            let mut sig: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
            let mut next = vec![];
            for q in 0..list.len() {
                let k = sig.len();
                next.push(*sig.entry((class[q], rows[q].iter().map(|x| class[*x]).collect())).or_insert(k));
            }
            let before: BTreeSet<usize> = class.iter().cloned().collect();
            let done = before.len() == sig.len();
            class = next;
            if done {
                break;
            }
        }
        // classes from which an accepting state can be reached
        let mut live: BTreeSet<usize> = (0..list.len()).filter(|q| self.accepts(&list[*q])).map(|q| class[q]).collect();
        loop {
            let n = live.len();
            for q in 0..list.len() {
                if rows[q].iter().any(|x| live.contains(&class[*x])) {
                    live.insert(class[q]);
                }
            }
            if live.len() == n {
                break;
            }
        }
        live.len().max(1)
    }

    /// the accepted words of at most k letters
    pub fn words(&self, k: usize, states: &mut u64) -> BTreeSet<Vec<String>> {
        let mut out = BTreeSet::new();
        let mut level: BTreeMap<Vec<String>, BTreeSet<usize>> = BTreeMap::new();
        level.insert(vec![], self.start());
        let letters = self.letters();
        for d in 0..=k {
            let mut next = BTreeMap::new();
            for (w, s) in &level {
                *states += 1;
                if self.accepts(s) {
                    out.insert(w.clone());
                }
                if d < k {
                    for l in &letters {
                        let n = self.step(s, l);
                        if !n.is_empty() {
                            let mut w2 = w.clone();
                            w2.push(l.clone());
                            next.insert(w2, n);
                        }
                    }
                }
            }
            level = next;
        }
        out
    }
}

/// the letter a label stands for, whatever the order of its actions; None when it is none of them
pub fn letter_of<'a>(label: &str, al: &'a [Letter], show: &dyn Fn(&Letter) -> String) -> Option<&'a Letter> {
    let norm = |x: &str| -> BTreeSet<String> { x.trim().trim_start_matches('{').trim_end_matches('}').split(',').map(|y| y.trim().to_string()).collect() };
    let want = norm(label);
    al.iter().find(|l| norm(&show(l)) == want)
}

// ---------------------------------------------------------------------------------------------
// any drawing

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Item {
    pub id: String,
    pub attrs: BTreeMap<String, String>,
    /// the cluster it is in
    pub within: Option<String>,
}

#[derive(Debug, Clone, Default)]
pub struct Drawing {
    pub graph: BTreeMap<String, String>,
    pub clusters: BTreeMap<String, BTreeMap<String, String>>,
    /// in the order of the text; an item written twice is there twice
    pub items: Vec<Item>,
    pub edges: Vec<(String, String, BTreeMap<String, String>)>,
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    P(char),
    Arrow,
}

fn tokens(text: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    s.push(c[i]);
                    i += 1;
                }
                s.push(c[i]);
                i += 1;
            }
            if i == c.len() {
                return Err("text not closed".into());
            }
            i += 1;
            out.push(Tok::Id(s));
        } else if c[i] == '-' && c.get(i + 1) == Some(&'>') {
            out.push(Tok::Arrow);
            i += 2;
        } else if "{}[];=,".contains(c[i]) {
            out.push(Tok::P(c[i]));
            i += 1;
        } else {
            let mut s = String::new();
            while i < c.len() && !c[i].is_whitespace() && !"{}[];=,\"".contains(c[i]) && !(c[i] == '-' && c.get(i + 1) == Some(&'>')) {
                s.push(c[i]);
                i += 1;
            }
            out.push(Tok::Id(s));
        }
    }
    Ok(out)
}

/// the dot language, as far as it is used here
pub fn read_drawing(text: &str) -> Result<Drawing, String> {
    let t = tokens(text)?;
    let mut d = Drawing::default();
    let mut i = 0;
    let id = |i: usize| match t.get(i) {
        Some(Tok::Id(s)) => Ok(s.clone()),
        x => Err(format!("a name instead of {:?}", x)),
    };
    if id(0)? != "digraph" {
        return Err("not a digraph".into());
    }
    i += 2;
    if t.get(i) != Some(&Tok::P('{')) {
        return Err("'{' expected".into());
    }
    i += 1;
    let mut stack: Vec<String> = vec![];
    loop {
        match t.get(i) {
            None => return Err("ends too early".into()),
            Some(Tok::P(';')) => i += 1,
            Some(Tok::P('}')) => {
                i += 1;
                if stack.pop().is_none() {
                    return if i == t.len() { Ok(d) } else { Err("something after the end".into()) };
                }
            }
            Some(Tok::Id(s)) if s == "subgraph" => {
                let n = id(i + 1)?;
                if t.get(i + 2) != Some(&Tok::P('{')) {
                    return Err("'{' expected".into());
                }
                if d.clusters.insert(n.clone(), BTreeMap::new()).is_some() {
                    return Err(format!("cluster {} twice", n));
                }
                stack.push(n);
                i += 3;
            }
            Some(Tok::Id(s)) => {
                let s = s.clone();
                if t.get(i + 1) == Some(&Tok::P('=')) {
                    let v = id(i + 2)?;
                    match stack.last() {
                        Some(c) => d.clusters.get_mut(c).unwrap().insert(s, v),
                        None => d.graph.insert(s, v),
                    };
                    i += 3;
                    continue;
                }
                let to = if t.get(i + 1) == Some(&Tok::Arrow) { Some(id(i + 2)?) } else { None };
                i += if to.is_some() { 3 } else { 1 };
                let mut attrs = BTreeMap::new();
                if t.get(i) == Some(&Tok::P('[')) {
                    i += 1;
                    loop {
                        match t.get(i) {
                            Some(Tok::P(']')) => {
                                i += 1;
                                break;
                            }
                            Some(Tok::P(',')) | Some(Tok::P(';')) => i += 1,
                            Some(Tok::Id(k)) => {
                                if t.get(i + 1) != Some(&Tok::P('=')) {
                                    return Err(format!("attribute {} without value", k));
                                }
                                attrs.insert(k.clone(), id(i + 2)?);
                                i += 3;
                            }
                            x => return Err(format!("an attribute instead of {:?}", x)),
                        }
                    }
                }
                match to {
                    Some(y) => d.edges.push((s, y, attrs)),
                    None => d.items.push(Item { id: s, attrs, within: stack.last().cloned() }),
                }
            }
            x => return Err(format!("a statement instead of {:?}", x)),
        }
    }
}

impl Drawing {
    pub fn item(&self, id: &str) -> Option<&Item> {
        self.items.iter().find(|x| x.id == id)
    }

    /// the drawing of a tree, as nested text: label(child,child)
    pub fn tree(&self) -> Result<String, String> {
        let mut kids: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
        let mut below: BTreeSet<&str> = BTreeSet::new();
        for (a, b, _) in &self.edges {
            kids.entry(a).or_default().push(b);
            if !below.insert(b) {
                return Err(format!("{} has two parents", b));
            }
        }
        let mut seen = BTreeSet::new();
        for x in &self.items {
            if !seen.insert(x.id.as_str()) {
                return Err(format!("{} is drawn twice", x.id));
            }
        }
        let roots: Vec<&str> = self.items.iter().map(|x| x.id.as_str()).filter(|x| !below.contains(x)).collect();
        if roots.len() != 1 {
            return Err(format!("roots {:?}", roots));
        }
        let mut left = self.items.len();
        let s = self.branch(roots[0], &kids, &mut left)?;
        if left != 0 {
            return Err("not connected".into());
        }
        Ok(s)
    }

    fn branch(&self, n: &str, kids: &BTreeMap<&str, Vec<&str>>, left: &mut usize) -> Result<String, String> {
        if *left == 0 {
            return Err("goes round".into());
        }
        *left -= 1;
        let it = self.item(n).ok_or(format!("{} is not drawn", n))?;
        let lab = it.attrs.get("label").ok_or(format!("{} has no label", n))?;
        match kids.get(n) {
            None => Ok(lab.clone()),
            Some(k) => {
                let mut v = vec![];
                for x in k {
                    v.push(self.branch(x, kids, left)?);
                }
                Ok(format!("{} [{}]", lab, v.join(" ; ")))
            }
        }
    }
}
