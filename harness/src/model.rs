//! The reference model: evaluates the document tree (never the text) and predicts what a journal holds.

use std::collections::{BTreeMap, BTreeSet};

use crate::ast::*;
use crate::dec::Dec;

pub type Money = (Dec, String);

#[derive(Clone, Debug, PartialEq)]
pub enum MCost {
    None,
    Exact(Dec, String),
    Approx(Dec, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MNote {
    None,
    Is(String),
    /// written on the posting line: may or may not be kept
    Maybe(String),
}

#[derive(Clone, Debug)]
pub struct MPost {
    pub account: String,
    pub amount: Money,
    pub cost: MCost,
    pub note: MNote,
}

#[derive(Clone, Debug)]
pub struct MPrice {
    pub exact: bool,
    pub from: String,
    pub to: String,
    pub when: String,
    pub q: Dec,
}

#[derive(Clone, Debug)]
pub struct MXact {
    pub date: String,
    pub aux: Option<String>,
    pub payee: String,
    pub note: Option<String>,
    pub posts: Vec<MPost>,
    pub prices: Vec<MPrice>,
    /// the posting whose amount was left out
    pub inferred: Option<usize>,
    /// two-commodity exchange
    pub implied: bool,
    /// nothing exchanged, or for nothing: which price that makes is not stated
    pub odd_price: bool,
}

pub enum Class {
    Ok(MXact),
    /// must be refused
    Reject,
    /// the properties say nothing about it
    Unspec,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Reject,
    Unspec,
    Bad,
}

fn sum(list: &mut Vec<(String, Dec)>, sym: &str, d: Dec) -> Option<()> {
    if let Some(e) = list.iter_mut().find(|e| e.0 == sym) {
        e.1 = e.1.add(d)?;
        if !e.1.fits() {
            return None;
        }
    } else {
        list.push((sym.to_string(), d));
    }
    Some(())
}

pub fn eval(x: &Xact) -> Class {
    match eval_opt(x) {
        Some(c) => c,
        None => Class::Unspec,
    }
}

fn eval_opt(x: &Xact) -> Option<Class> {
    if x.posts.len() < 2 || (x.hnote.is_some() && x.note.is_some()) {
        return None;
    }
    let when = format!("{} 00:00:00", x.date);
    let mut bal: Vec<(String, Dec)> = vec![];
    let mut nulls = vec![];
    let mut posts = vec![];
    let mut any_cost = false;
    for (i, p) in x.posts.iter().enumerate() {
        if p.acct.is_empty() || (p.inline.is_some() && p.note.is_some()) {
            return None;
        }
        let note = match (&p.inline, &p.note) {
            (_, Some(n)) => MNote::Is(n.clone()),
            (Some(n), _) => MNote::Maybe(n.clone()),
            _ => MNote::None,
        };
        let account = p.acct.join(":");
        let Some(a) = &p.amt else {
            if p.cost.is_some() || p.lot.is_some() {
                return None;
            }
            nulls.push(i);
            posts.push(MPost {
                account,
                amount: (Dec::ZERO, String::new()),
                cost: MCost::None,
                note,
            });
            continue;
        };
        let q = a.n.dec()?;
        if !q.fits() {
            return None;
        }
        let mut cost = MCost::None;
        if let Some(c) = &p.cost {
            any_cost = true;
            let cq = c.amt.n.dec()?;
            if a.sym.is_empty() || c.amt.sym.is_empty() || a.sym == c.amt.sym {
                return None;
            }
            let total = if c.per_unit { cq.mul(q)? } else { cq };
            if !total.fits() {
                return None;
            }
            sum(&mut bal, &c.amt.sym, total)?;
            cost = MCost::Exact(total, c.amt.sym.clone());
        } else {
            if let Some(l) = &p.lot {
                if l.price.is_some() || l.date.is_some() {
                    // lots go with a cost
                    return None;
                }
            }
            sum(&mut bal, &a.sym, q)?;
        }
        posts.push(MPost {
            account,
            amount: (q, a.sym.clone()),
            cost,
            note,
        });
    }
    if nulls.len() > 1 {
        return Some(Class::Reject);
    }
    let mut inferred = None;
    let mut implied = false;
    if let Some(&n) = nulls.first() {
        if bal.len() == 1 {
            posts[n].amount = (bal[0].1.neg(), bal[0].0.clone());
            inferred = Some(n);
        } else if bal.iter().filter(|b| !b.1.is_zero()).count() >= 2 {
            return Some(Class::Reject);
        } else {
            return None;
        }
    } else if bal.len() == 2 && !any_cost && !bal[0].1.is_zero() && !bal[1].1.is_zero() {
        if bal[0].0.is_empty() || bal[1].0.is_empty() {
            return None;
        }
        // the first posting's commodity is converted
        implied = true;
        let first = posts[0].amount.1.clone();
        let (x, y) = if bal[0].0 == first { (0, 1) } else { (1, 0) };
        let rate = bal[y].1.div(bal[x].1)?.abs();
        if rate.is_zero() {
            return None;
        }
        for p in &mut posts {
            if p.amount.1 == first {
                if p.amount.0.is_zero() {
                    return None;
                }
                // amount * y / x
                let c = match p.amount.0.mul(bal[y].1) {
                    Some(m) if m.fits() => m.div(bal[x].1)?.abs(),
                    _ => rate.mul_approx(p.amount.0)?.abs(),
                };
                let c = if p.amount.0.neg_sign() { c.neg() } else { c };
                p.cost = MCost::Approx(c, bal[y].0.clone());
            }
        }
    }
    let mut prices = vec![];
    let mut odd_price = false;
    for p in &posts {
        if let MCost::Exact(c, sym) | MCost::Approx(c, sym) = &p.cost {
            if c.is_zero() || p.amount.0.is_zero() {
                odd_price = true;
                continue;
            }
            let q = c.div(p.amount.0)?.abs();
            if q.is_zero() {
                return None;
            }
            // a quotient that is exact has only one right answer
            let exact = matches!(p.cost, MCost::Exact(..)) && q.small() && q.mul(p.amount.0).map_or(false, |m| m.abs() == c.abs());
            prices.push(MPrice {
                exact,
                from: p.amount.1.clone(),
                to: sym.clone(),
                when: when.clone(),
                q,
            });
        }
    }
    Some(Class::Ok(MXact {
        date: x.date.clone(),
        aux: x.aux.clone(),
        payee: x.payee.clone().unwrap_or_else(|| "Unknown Payee".to_string()),
        note: x.hnote.clone().or_else(|| x.note.clone()),
        posts,
        prices,
        inferred,
        implied,
        odd_price,
    }))
}

/// Includes nested this deep must work.
pub const DEEP: usize = 100;

#[derive(Clone, Default)]
pub struct Model {
    pub xacts: Vec<MXact>,
    pub syms: BTreeSet<String>,
    pub prices: BTreeMap<(String, String, String), Dec>,
    /// those of them that are the outcome of a rounded division
    pub rough: BTreeSet<(String, String, String)>,
    /// full names of all accounts but the root
    pub accounts: BTreeSet<Vec<String>>,
    pub includes: BTreeMap<usize, usize>,
}

impl Model {
    pub fn register(&mut self, path: &[String]) {
        for i in 1..=path.len() {
            self.accounts.insert(path[..i].to_vec());
        }
    }

    pub fn add_price(&mut self, p: &MPrice) {
        let key = (p.from.clone(), p.to.clone(), p.when.clone());
        if p.exact {
            self.rough.remove(&key);
        } else {
            self.rough.insert(key.clone());
        }
        self.prices.insert(key, p.q);
    }

    pub fn add_xact(&mut self, x: &Xact) -> Result<(), Stop> {
        match eval(x) {
            Class::Reject => Err(Stop::Reject),
            Class::Unspec => Err(Stop::Unspec),
            Class::Ok(m) => {
                for p in &x.posts {
                    for i in 1..=p.acct.len() {
                        self.accounts.insert(p.acct[..i].to_vec());
                    }
                    let mut sym = |s: &str| {
                        if !s.is_empty() {
                            self.syms.insert(s.to_string());
                        }
                    };
                    if let Some(a) = &p.amt {
                        sym(&a.sym);
                    }
                    if let Some(c) = &p.cost {
                        sym(&c.amt.sym);
                    }
                    if let Some(Lot { price: Some(a), .. }) = &p.lot {
                        sym(&a.sym);
                    }
                }
                for p in &m.prices {
                    self.add_price(p);
                }
                self.xacts.push(m);
                Ok(())
            }
        }
    }

    pub fn add_item(&mut self, plan: &Plan, item: &Item, depth: usize) -> Result<(), Stop> {
        match item {
            Item::X(x) => self.add_xact(x),
            Item::P(p) => {
                let q = p.q.dec().ok_or(Stop::Unspec)?;
                if p.from == p.to || q.is_zero() || q.neg_sign() || p.from.is_empty() || p.to.is_empty() {
                    return Err(Stop::Unspec);
                }
                self.syms.insert(p.from.clone());
                self.syms.insert(p.to.clone());
                let when = format!("{} {}", p.date, p.time.as_deref().unwrap_or("00:00:00"));
                self.add_price(&MPrice {
                    exact: true,
                    from: p.from.clone(),
                    to: p.to.clone(),
                    when,
                    q,
                });
                Ok(())
            }
            Item::C(_) | Item::B => Ok(()),
            Item::Bad(_) => Err(Stop::Bad),
            Item::I { file, .. } => {
                if depth > DEEP {
                    return Err(Stop::Unspec);
                }
                *self.includes.entry(*file).or_default() += 1;
                let doc = plan.files.get(*file).ok_or(Stop::Unspec)?.doc;
                self.load(plan, doc, depth + 1)
            }
        }
    }

    pub fn load(&mut self, plan: &Plan, doc: usize, depth: usize) -> Result<(), Stop> {
        let doc = plan.docs.get(doc).ok_or(Stop::Unspec)?;
        for item in &doc.items {
            self.add_item(plan, item, depth)?;
        }
        Ok(())
    }

    /// own amounts per account path and commodity
    pub fn own(&self) -> BTreeMap<Vec<String>, BTreeMap<String, Dec>> {
        let mut r: BTreeMap<Vec<String>, BTreeMap<String, Dec>> = BTreeMap::new();
        for x in &self.xacts {
            for p in &x.posts {
                let path: Vec<String> = p.account.split(':').map(|s| s.to_string()).collect();
                let e = r.entry(path).or_default().entry(p.amount.1.clone()).or_insert(Dec::ZERO);
                *e = e.add(p.amount.0).unwrap_or(Dec { m: i128::MAX, s: 0 });
            }
        }
        r
    }

    /// totals per account path (the root is the empty path) and commodity
    pub fn totals(&self) -> BTreeMap<Vec<String>, BTreeMap<String, Dec>> {
        let mut r: BTreeMap<Vec<String>, BTreeMap<String, Dec>> = BTreeMap::new();
        for (path, amounts) in self.own() {
            for i in 0..=path.len() {
                let t = r.entry(path[..i].to_vec()).or_default();
                for (s, d) in &amounts {
                    let e = t.entry(s.clone()).or_insert(Dec::ZERO);
                    *e = e.add(*d).unwrap_or(Dec { m: i128::MAX, s: 0 });
                }
            }
        }
        r
    }

    /// All sums stay within what a 96 bit decimal holds exactly.
    pub fn sums_fit(&self) -> bool {
        let mut abs: BTreeMap<String, (Dec, u32)> = BTreeMap::new();
        for x in &self.xacts {
            for p in &x.posts {
                let e = abs.entry(p.amount.1.clone()).or_insert((Dec::ZERO, 0));
                let Some(s) = e.0.add(p.amount.0.abs()) else { return false };
                e.0 = s;
                e.1 = e.1.max(p.amount.0.s);
            }
        }
        abs.values().all(|(d, s)| {
            d.fits() && {
                // the sum at the largest scale seen
                let up = 10i128.checked_pow(s.saturating_sub(d.s));
                up.and_then(|u| d.m.checked_mul(u)).map_or(false, |m| Dec { m, s: *s }.fits())
            }
        })
    }

    /// account paths in report order: parents first, siblings by name
    pub fn preorder(&self) -> Vec<Vec<String>> {
        // BTreeSet orders vectors of strings lexicographically: exactly that order.
        let mut v = vec![vec![]];
        v.extend(self.accounts.iter().cloned());
        v
    }

    /// accounts report: leaf names of all accounts, sorted
    pub fn account_names(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![String::new()];
        v.extend(self.accounts.iter().map(|a| a.last().unwrap().clone()));
        v.sort();
        v
    }

    /// newest price per pair
    pub fn newest(&self) -> BTreeMap<(String, String), (String, Rate)> {
        let mut r: BTreeMap<(String, String), (String, Rate)> = BTreeMap::new();
        for ((f, t, w), q) in &self.prices {
            let exact = !self.rough.contains(&(f.clone(), t.clone(), w.clone()));
            let q = Rate { q: *q, whole: if exact { Some(*q) } else { None } };
            let e = r.entry((f.clone(), t.clone())).or_insert((w.clone(), q));
            if *w >= e.0 {
                *e = (w.clone(), q);
            }
        }
        r
    }

    /// All answers allowed for a rate lookup (one per shortest chain); empty: no chain.
    pub fn rates(&self, from: &str, to: &str) -> Vec<(String, Rate)> {
        let newest = self.newest();
        let mut edges: BTreeMap<&str, Vec<(&str, &str, Rate)>> = BTreeMap::new();
        for ((f, t), (w, q)) in &newest {
            edges.entry(f).or_default().push((t, w, *q));
        }
        // level by level; every path to the target on the first level that reaches it
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        seen.insert(from);
        let mut level: Vec<(&str, String, Rate)> = vec![(from, String::new(), Rate { q: Dec::ONE, whole: Some(Dec::ONE) })];
        while !level.is_empty() {
            let mut next: Vec<(&str, String, Rate)> = vec![];
            for (node, when, q) in &level {
                for (t, w, r) in edges.get(node).map(|v| v.as_slice()).unwrap_or(&[]) {
                    if seen.contains(t) {
                        continue;
                    }
                    let when = if when.is_empty() || *w < when.as_str() {
                        w.to_string()
                    } else {
                        when.clone()
                    };
                    let prod = q.times(r);
                    next.push((t, when, prod));
                }
            }
            let hits: Vec<(String, Rate)> = next
                .iter()
                .filter(|n| n.0 == to)
                .map(|n| (n.1.clone(), n.2))
                .collect();
            if !hits.is_empty() {
                return hits;
            }
            for n in &next {
                seen.insert(n.0);
            }
            next.truncate(2000);
            level = next;
        }
        vec![]
    }
}

/// A rate: about `q`; exactly `whole` if no step of its computation, in whatever order, is rounded.
#[derive(Clone, Copy, Debug)]
pub struct Rate {
    pub q: Dec,
    pub whole: Option<Dec>,
}

impl Rate {
    fn times(&self, o: &Rate) -> Rate {
        let q = match self.q.mul(o.q) {
            Some(p) if p.fits() => p,
            _ => self.q.mul_approx(o.q).unwrap_or(Dec::ZERO),
        };
        let whole = match (self.whole, o.whole) {
            (Some(a), Some(b)) => a.raw_mul(b).filter(|p| p.fits()),
            _ => None,
        };
        Rate { q, whole }
    }
    pub fn is(&self, got: &Dec) -> bool {
        match self.whole {
            Some(w) => w == *got,
            None => self.q.close(got),
        }
    }
}
