//! State machines in the notation of PlantUML (forks, joins, choices, composite states), read as
//! nets whose markings are explored.
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Debug)]
pub struct Net {
    places: usize,
    /// consumed, produced, label
    moves: Vec<(Vec<usize>, Vec<usize>, Option<String>)>,
    start: usize,
    end: usize,
}

#[derive(Default)]
struct Reader {
    net: Net,
    /// place of a state when entered, when left
    states: BTreeMap<String, (usize, usize)>,
    kind: BTreeMap<String, Kind>,
    /// where names are used
    scope: BTreeMap<String, usize>,
    scopes: usize,
    edges: Vec<(Option<String>, Option<String>, Option<String>, usize, usize)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Fork,
    Join,
    Choice,
    Composite,
}

impl Reader {
    fn place(&mut self) -> usize {
        self.net.places += 1;
        self.net.places - 1
    }

    fn state(&mut self, n: &str, k: Option<Kind>, scope: usize) -> Result<(), String> {
        let s = *self.scope.entry(n.to_string()).or_insert(scope);
        if s != scope {
            return Err(format!("{} is used in two scopes", n));
        }
        if !self.states.contains_key(n) {
            let p = self.place();
            let q = if k == Some(Kind::Composite) { self.place() } else { p };
            self.states.insert(n.to_string(), (p, q));
        } else if k.is_some() {
            return Err(format!("{} is declared after it is used", n));
        }
        if let Some(k) = k {
            self.kind.insert(n.to_string(), k);
        }
        Ok(())
    }

    /// reads the statements of a scope, up to its closing brace; its entry and exit places
    fn scope(&mut self, lines: &mut std::iter::Peekable<std::vec::IntoIter<String>>, start: usize, end: usize) -> Result<(), String> {
        let me = self.scopes;
        self.scopes += 1;
        loop {
            let l = lines.next().ok_or("unclosed state")?;
            if l == "}" {
                return Ok(());
            }
            if let Some(r) = l.strip_prefix("state ") {
                let r = r.trim();
                if let Some(n) = r.strip_suffix('{') {
                    let n = n.trim();
                    self.state(n, Some(Kind::Composite), me)?;
                    let (p, q) = self.states[n];
                    self.scope(lines, p, q)?;
                    continue;
                }
                let (n, k) = match r.split_once("<<") {
                    None => (r, Kind::Plain),
                    Some((n, k)) => (n.trim(), match k.trim_end_matches(">>") {
                        "fork" => Kind::Fork,
                        "join" => Kind::Join,
                        "choice" => Kind::Choice,
                        x => return Err(format!("unknown kind {}", x)),
                    }),
                };
                self.state(n, Some(k), me)?;
                continue;
            }
            let (x, y) = l.split_once("-->").ok_or(format!("line {}", l))?;
            let (y, lab) = match y.split_once(':') {
                None => (y.trim(), None),
                Some((y, l)) => (y.trim(), Some(l.trim().to_string())),
            };
            let x = x.trim();
            let mut name = |r: &mut Reader, n: &str| -> Result<Option<String>, String> {
                if n == "[*]" {
                    return Ok(None);
                }
                r.state(n, None, me)?;
                Ok(Some(n.to_string()))
            };
            let (a, b) = (name(self, x)?, name(self, y)?);
            self.edges.push((a, b, lab, start, end));
        }
    }

    fn finish(mut self) -> Result<Net, String> {
        // tokens waiting on the edges of forks and joins
        let mut out: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut inc: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let edges = std::mem::take(&mut self.edges);
        for (a, b, lab, start, end) in edges {
            let ka = a.as_ref().and_then(|x| self.kind.get(x)).copied();
            let kb = b.as_ref().and_then(|x| self.kind.get(x)).copied();
            if a.is_some() && a == b {
                // a state that repeats what it contains, any number of times
                if ka != Some(Kind::Composite) || lab.is_some() {
                    return Err(format!("repetition of {:?}", a));
                }
                let (p, q) = self.states[a.as_ref().unwrap()];
                self.net.moves.push((vec![q], vec![p], None));
                self.net.moves.push((vec![p], vec![q], None));
                continue;
            }
            let from = match &a {
                None => start,
                Some(x) if ka == Some(Kind::Fork) => {
                    let p = self.place();
                    out.entry(x.clone()).or_default().push(p);
                    p
                }
                Some(x) => self.states[x].1,
            };
            let to = match &b {
                None => end,
                Some(x) if kb == Some(Kind::Join) => {
                    let p = self.place();
                    inc.entry(x.clone()).or_default().push(p);
                    p
                }
                Some(x) => self.states[x].0,
            };
            self.net.moves.push((vec![from], vec![to], lab));
        }
        let kinds = self.kind.clone();
        for (n, k) in kinds {
            let p = self.states[&n];
            match k {
                Kind::Fork => self.net.moves.push((vec![p.0], out.remove(&n).ok_or(format!("{} leads nowhere", n))?, None)),
                Kind::Join => self.net.moves.push((inc.remove(&n).ok_or(format!("{} is not reached", n))?, vec![p.0], None)),
                _ => {}
            }
        }
        Ok(self.net)
    }
}

/// the state machines of a file, by name
pub fn read_machines(text: &str) -> Result<Vec<(String, Net)>, String> {
    let v: Vec<String> = text.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('\'') && !l.starts_with("title")).collect();
    let mut it = v.into_iter().peekable();
    if it.next().as_deref() != Some("@startuml") {
        return Err("no start".into());
    }
    let mut out = vec![];
    let mut all: BTreeSet<String> = BTreeSet::new();
    loop {
        let l = it.next().ok_or("no end")?;
        if l == "@enduml" {
            return if it.next().is_none() { Ok(out) } else { Err("text after the end".into()) };
        }
        let n = l.strip_prefix("state ").and_then(|x| x.trim().strip_suffix('{')).ok_or(format!("line {}", l))?.trim().to_string();
        let mut r = Reader::default();
        let (s, e) = (r.place(), r.place());
        r.scope(&mut it, s, e)?;
        r.net.start = s;
        r.net.end = e;
        // names are global
        for x in r.states.keys().chain([&n]) {
            if !all.insert(x.clone()) {
                return Err(format!("{} is used twice", x));
            }
        }
        out.push((n, r.finish()?));
    }
}

type Marking = Vec<u8>;

impl Net {
    fn fire(m: &Marking, from: &[usize], to: &[usize]) -> Option<Marking> {
        let mut n = m.clone();
        for p in from {
            if n[*p] == 0 {
                return None;
            }
            n[*p] -= 1;
        }
        for p in to {
            n[*p] += 1;
        }
        Some(n)
    }

    fn silent(&self, s: BTreeSet<Marking>) -> BTreeSet<Marking> {
        let mut out = s.clone();
        let mut todo: Vec<Marking> = s.into_iter().collect();
        while let Some(m) = todo.pop() {
            for (f, t, l) in &self.moves {
                if l.is_none() {
                    if let Some(n) = Net::fire(&m, f, t) {
                        if out.insert(n.clone()) {
                            todo.push(n);
                        }
                    }
                }
            }
        }
        out
    }

    /// the accepted sequences of at most k labels
    pub fn words(&self, k: usize, states: &mut u64, steps: &mut u64) -> BTreeSet<Vec<String>> {
        let mut out = BTreeSet::new();
        let mut first = vec![0u8; self.places];
        first[self.start] = 1;
        let mut last = vec![0u8; self.places];
        last[self.end] = 1;
        let mut level: HashMap<Vec<String>, BTreeSet<Marking>> = HashMap::new();
        level.insert(vec![], self.silent([first].into_iter().collect()));
        for d in 0..=k {
            let mut next: HashMap<Vec<String>, BTreeSet<Marking>> = HashMap::new();
            for (w, s) in &level {
                *states += s.len() as u64;
                if s.contains(&last) {
                    out.insert(w.clone());
                }
                if d == k {
                    continue;
                }
                for m in s {
                    for (f, t, l) in &self.moves {
                        if let (Some(l), Some(n)) = (l, Net::fire(m, f, t)) {
                            *steps += 1;
                            let mut w2 = w.clone();
                            w2.push(l.clone());
                            next.entry(w2).or_default().insert(n);
                        }
                    }
                }
            }
            level = next.into_iter().map(|(w, s)| { let c = self.silent(s); (w, c) }).collect();
        }
        out
    }
}
