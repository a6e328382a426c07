//! Plans from seeds. Every choice comes from the one generator.

use crate::ast::*;
use crate::dec::Dec;
use crate::rng::Rng;

/// What one run draws from (swarm style: each run switches features on and off).
#[derive(Clone)]
pub struct Cfg {
    pub accounts: Vec<Vec<String>>,
    pub syms: Vec<String>,
    /// commodity-less amounts only
    pub bare: bool,
    pub int_digits: usize,
    pub frac_digits: usize,
    pub max_posts: usize,
    pub p_null: usize,
    pub p_cost: usize,
    pub p_implied: usize,
    pub p_multi: usize,
    pub p_loose: usize,
    pub p_price: usize,
    pub p_comment: usize,
    pub p_note: usize,
    pub p_lot: usize,
    pub p_neg: usize,
    pub p_zero: usize,
    pub p_aux: usize,
    pub p_long: usize,
    pub odd_style: bool,
    pub inline: bool,
    /// the next document has this many transactions, whatever is asked for
    pub huge: std::cell::Cell<usize>,
    /// Lines without meaning before the next document's content
    pub filler: std::cell::Cell<usize>,
    pub years: (usize, usize),
}

const WORDS: [&str; 40] = [
    "Assets", "Expenses", "Income", "Equity", "Liabilities", "Cash", "Bank", "Broker", "Food", "Rent", "Car", "Visa",
    "Savings", "Checking", "Opening", "Fees", "Tax", "Salary", "Gifts", "Travel", "a", "A", "B", "aa", "Cash2", "Cas",
    "cash", "Credit Card", "Café", "Ünïcode", "日本", "Über Miete", "x-y", "A B", "A!", "Ω", "2023", "0", "R&D", "Müller's",
];

const SYMS: [&str; 36] = [
    "EUR", "USD", "GBP", "AUD", "BAM", "$", "€", "£", "¥", "VEUR", "VAS", "VECP", "BRK.B", "abc", "EURO", "EU", "E", "eur",
    "Ünit", "株", "BTC", "ETH", "hours", "km", "\"Fund\"", "X_Y", "a", "A", "AA", "CHF", "JPY", "kr", "zł", "%", "oz", "SP/X",
];

fn letters(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'A' + r.below(26) as u8) as char).collect()
}

pub fn segment(r: &mut Rng) -> String {
    match r.below(20) {
        0..=13 => r.pick(&WORDS).to_string(),
        // names that differ late
        14 => {
            let n = r.range(0, 3);
            format!("Expenses 2023 {}", letters(r, n)).trim_end().to_string()
        }
        15 => format!("Acct{}", r.below(120)),
        16 if r.pct(20) => {
            let n = r.range(0, 2);
            format!("{}{}", "Averyverylongnamethatgoesonandon".repeat(if r.pct(20) { r.range(3, 12) } else { 2 }), letters(r, n))
        }
        _ => {
            let n = r.range(1, 8);
            letters(r, n)
        }
    }
}

/// A name that is easily taken for another one.
fn near(r: &mut Rng, s: String) -> String {
    let mut t = s.clone();
    match r.below(12) {
        0 => t.push(*r.pick(&['.', '_', '/', '%', '-', '!', '\'', '*', '?', '\\', '#', '"', '+', '=', '~', '&', '^', '|', '<', '>', ','])),
        1 => t.push(*r.pick(&['a', 'A', 'É', 'R', '0', 's', 'é', '\u{301}', '\u{a0}', '\u{200b}'])),
        2 => t = t.to_lowercase(),
        3 => t = t.to_uppercase(),
        4 => t.insert(0, *r.pick(&['E', 'x', '.', '0', '_', 'É'])),
        5 => {
            t.pop();
        }
        6 => t = t.replace(' ', "_"),
        7 => t = t.replace(' ', ""),
        8 => t = format!("{} {}", t, r.pick(&["A", "2", "copy", "."])),
        9 => t = t.chars().rev().collect(),
        10 => t = format!("{}{}", t, t),
        _ => {
            // the same beginning, of any length
            let n = t.chars().count();
            let long = r.range(1, 40);
            t.extend(std::iter::repeat('x').take(long.saturating_sub(n)));
            t.push(*r.pick(&['1', '2', '3']));
        }
    }
    let t = t.trim().to_string();
    if t.is_empty() || t.contains("  ") || t.starts_with(|c| ";#*|\"(['<".contains(c)) || t.chars().count() > 400 {
        return s;
    }
    t
}

pub fn accounts(r: &mut Rng, n: usize, depth: usize) -> Vec<Vec<String>> {
    let mut list: Vec<Vec<String>> = vec![];
    while list.len() < n {
        let mut path: Vec<String> = if !list.is_empty() && r.pct(60) {
            let base = r.pick(&list).clone();
            let keep = r.below(base.len() + 1);
            base[..keep].to_vec()
        } else {
            vec![]
        };
        if !path.is_empty() && r.pct(12) {
            // nearly the same as another one
            let last = path.pop().unwrap();
            path.push(near(r, last));
            list.push(path);
            continue;
        }
        if path.len() < depth {
            let more = r.range(1, (depth - path.len()).min(if depth > 12 { 20 } else { 3 }));
            for _ in 0..more {
                path.push(segment(r));
            }
        }
        list.push(path);
    }
    list.sort();
    list.dedup();
    // order by chance, not by name
    for i in (1..list.len()).rev() {
        let k = r.below(i + 1);
        list.swap(i, k);
    }
    list
}

pub fn symbols(r: &mut Rng, n: usize) -> Vec<String> {
    let mut list: Vec<String> = vec![];
    let mut tries = 0;
    while list.len() < n {
        tries += 1;
        let s = if !list.is_empty() && r.pct(18) {
            // nearly the same as another one
            let mut t = r.pick(&list).clone();
            match r.below(6) {
                0 => t.push(*r.pick(&['.', '_', '/', '%'])),
                1 => t.push(*r.pick(&['a', 'A', 'É', 'R'])),
                2 => t = t.to_lowercase(),
                3 => t = t.to_uppercase(),
                4 => t.insert(0, *r.pick(&['E', 'x', '$'])),
                5 if r.pct(60) => {
                    let n = r.range(3, 40).saturating_sub(t.chars().count());
                    t.extend(std::iter::repeat('X').take(n));
                    t.push(*r.pick(&['A', 'B', 'C']));
                }
                _ => {
                    t.pop();
                }
            }
            if t.is_empty() || t.contains('"') {
                continue;
            }
            t
        } else if r.pct(3) {
            let n = r.range(7, 70);
            letters(r, n)
        } else if tries < 60 && r.pct(75) {
            r.pick(&SYMS).to_string()
        } else {
            let n = r.range(2, 6);
            letters(r, n)
        };
        if !list.contains(&s) {
            list.push(s);
        }
    }
    list
}

pub fn cfg(r: &mut Rng) -> Cfg {
    let big = r.pct(10);
    let (n_acc, n_sym) = if big {
        (r.range(20, 90), r.range(8, 40))
    } else {
        (r.range(2, 14), r.range(1, 6))
    };
    let deepest = if r.pct(3) { 30 } else if r.pct(10) { 12 } else { 5 };
    let depth = r.range(1, deepest);
    let on = |r: &mut Rng, p: usize, v: usize| if r.pct(p) { v } else { 0 };
    Cfg {
        accounts: accounts(r, n_acc, depth),
        syms: symbols(r, n_sym.max(2)),
        bare: r.pct(8),
        int_digits: *r.pick(&[1, 2, 3, 3, 5, 7]),
        frac_digits: *r.pick(&[0, 2, 2, 2, 4, 5]),
        max_posts: if r.pct(2) { r.range(40, 150) } else { *r.pick(&[2, 3, 3, 4, 5, 6, 9, 16]) },
        p_null: *r.pick(&[0, 50, 80, 100]),
        p_cost: on(r, 40, 30),
        p_implied: on(r, 30, 20),
        p_multi: on(r, 30, 20),
        p_loose: 0,
        p_price: on(r, 30, 15),
        p_comment: on(r, 50, 20),
        p_note: on(r, 60, 25),
        p_lot: on(r, 30, 40),
        p_neg: *r.pick(&[0, 20, 50]),
        p_zero: on(r, 20, 5),
        p_aux: on(r, 40, 30),
        p_long: on(r, 6, 15),
        odd_style: r.pct(60),
        inline: r.pct(30),
        huge: Default::default(),
        filler: Default::default(),
        years: *r.pick(&[(2023, 2023), (2020, 2025), (1900, 2100), (1970, 2040), (1, 9999)]),
    }
}

pub fn date(r: &mut Rng, years: (usize, usize)) -> String {
    let y = r.range(years.0, years.1);
    let m = r.range(1, 12);
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let max = match m {
        2 => 28 + leap as usize,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let d = if r.pct(10) { max } else { r.range(1, max) };
    format!("{:04}-{:02}-{:02}", y, m, d)
}

pub fn time(r: &mut Rng) -> String {
    format!("{:02}:{:02}:{:02}", r.below(24), r.below(60), r.below(60))
}

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

/// positive number, not zero
fn pos(r: &mut Rng, int_digits: usize, frac_digits: usize) -> Num {
    loop {
        let n = r.range(1, int_digits.max(1));
        let mut int = digits(r, n).trim_start_matches('0').to_string();
        if int.is_empty() {
            int = "0".into();
        }
        let frac = if frac_digits > 0 && r.pct(60) {
            let n = r.range(1, frac_digits);
            Some(digits(r, n))
        } else {
            None
        };
        let n = Num { neg: false, int, frac };
        if n.dec().map_or(false, |d| !d.is_zero()) {
            return n;
        }
    }
}

pub fn num_of(d: Dec) -> Num {
    let t = d.to_string();
    let (neg, t) = match t.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, t.as_str()),
    };
    match t.split_once('.') {
        Some((a, b)) => Num {
            neg,
            int: a.into(),
            frac: Some(b.into()),
        },
        None => Num {
            neg,
            int: t.into(),
            frac: None,
        },
    }
}

fn style(r: &mut Rng, c: &Cfg) -> u8 {
    if c.odd_style {
        r.below(5) as u8
    } else {
        0
    }
}

fn amt(r: &mut Rng, c: &Cfg, mut n: Num, sym: &str) -> Amt {
    let style = style(r, c);
    // `.5`, unless it would touch the symbol
    if n.int == "0" && n.frac.is_some() && style != 3 && c.odd_style && r.pct(20) {
        n.int = String::new();
    }
    if c.odd_style && r.pct(2) {
        n.int = format!("{}{}", "0".repeat(r.range(1, 3)), n.int);
    }
    Amt {
        n,
        sym: sym.to_string(),
        style,
    }
}

fn signed(r: &mut Rng, c: &Cfg, d: usize, f: usize) -> Num {
    if r.pct(c.p_zero) {
        return Num {
            neg: false,
            int: "0".into(),
            frac: if r.pct(30) { Some("00".into()) } else { None },
        };
    }
    let mut n = pos(r, d, f);
    n.neg = r.pct(c.p_neg);
    n
}

pub fn words(r: &mut Rng, long: bool) -> String {
    let n = match r.below(10) {
        _ if !long => r.range(1, 4),
        0 => r.range(9_000, 12_000),
        1..=5 => r.range(900, 2500),
        _ => r.range(30, 200),
    };
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push(' ');
        }
        t.push_str(&segment(r));
    }
    t
}

fn note(r: &mut Rng, c: &Cfg) -> String {
    match r.below(12) {
        0 => ":tag1:tag2:".to_string(),
        1 => "key: value".to_string(),
        2 => "; twice".to_string(),
        3 => format!("10 EUR @ {}", r.below(100)),
        4 => format!("{}: {}", segment(r).replace(' ', "-"), words(r, false)),
        5 => format!("{}  ; {}", words(r, false), words(r, false)),
        6 => {
            let n = r.range(1, 12);
            let t: String = (0..n).map(|_| *r.pick(&[';', ':', '@', '{', '}', '[', ']', '(', ')', '=', '-', '*', '!', '"', '#', '|', ' ', ' ', '\t', '0', '7', 'x', 'É', '~', '%'])).collect();
            match t.trim() {
                "" => "x".to_string(),
                t => t.to_string(),
            }
        }
        _ => {
            let long = r.pct(c.p_long);
            words(r, long)
        }
    }
}

fn payee(r: &mut Rng, c: &Cfg) -> String {
    let long = r.pct(c.p_long);
    let mut t = words(r, long);
    match r.below(12) {
        0 => t.push_str("; semi"),
        1 => t.push_str(" = 5"),
        2 => t.push_str(" @ home"),
        3 => t = format!("2023-01-01 {}", t),
        4 if c.odd_style => t = t.replace(' ', "  "),
        5 if c.odd_style => t.push_str(" ; one"),
        6 if c.odd_style => t = format!("{}\t{}", t, segment(r)),
        _ => {}
    }
    t
}

fn post(r: &mut Rng, c: &Cfg, a: Option<Amt>) -> Post {
    let mut p = Post {
        acct: r.pick(&c.accounts).clone(),
        amt: a,
        lot: None,
        cost: None,
        inline: None,
        note: None,
        indent: if c.odd_style { r.range(1, 8) as u8 } else { 4 },
        sep: if c.odd_style { r.range(2, 20) as u8 } else { 2 },
        trail: if c.odd_style && r.pct(15) { r.range(1, 3) as u8 } else { 0 },
    };
    if r.pct(c.p_note) {
        if c.inline && r.pct(40) {
            p.inline = Some(note(r, c));
        } else {
            p.note = Some(note(r, c));
        }
    }
    p
}

pub fn sums(posts: &[Post]) -> Vec<(String, Dec)> {
    let mut bal: Vec<(String, Dec)> = vec![];
    for p in posts {
        let Some(a) = &p.amt else { continue };
        let (sym, d) = match &p.cost {
            Some(k) => {
                let cq = k.amt.n.dec().unwrap();
                (
                    k.amt.sym.clone(),
                    if k.per_unit {
                        cq.mul(a.n.dec().unwrap()).unwrap()
                    } else {
                        cq
                    },
                )
            }
            None => (a.sym.clone(), a.n.dec().unwrap()),
        };
        match bal.iter_mut().find(|b| b.0 == sym) {
            Some(b) => b.1 = b.1.add(d).unwrap(),
            None => bal.push((sym, d)),
        }
    }
    bal
}

fn insert_at(r: &mut Rng, posts: &mut Vec<Post>, p: Post) {
    let at = if r.pct(60) { posts.len() } else { r.below(posts.len() + 1) };
    posts.insert(at, p);
}

pub fn header(r: &mut Rng, c: &Cfg) -> Xact {
    let mut x = Xact {
        date: date(r, c.years),
        aux: None,
        payee: Some(payee(r, c)),
        hnote: None,
        note: None,
        posts: vec![],
        end: if r.pct(15) { r.range(1, 12) as u8 } else { 0 },
    };
    if r.pct(c.p_aux) {
        x.aux = Some(date(r, c.years));
    }
    if r.pct(4) {
        x.payee = None;
    }
    if r.pct(c.p_note) {
        if r.pct(50) {
            x.hnote = Some(note(r, c));
        } else {
            x.note = Some(note(r, c));
        }
    }
    x
}

fn two_syms(r: &mut Rng, c: &Cfg) -> (String, String) {
    let a = r.below(c.syms.len());
    let mut b = r.below(c.syms.len());
    if a == b {
        b = (a + 1) % c.syms.len();
    }
    (c.syms[a].clone(), c.syms[b].clone())
}

/// A transaction the model has a definite opinion about.
pub fn xact(r: &mut Rng, c: &Cfg) -> Xact {
    for _ in 0..20 {
        let x = xact_try(r, c);
        if matches!(crate::model::eval(&x), crate::model::Class::Ok(_)) {
            return x;
        }
    }
    let mut x = header(r, c);
    let s = if c.bare { String::new() } else { c.syms[0].clone() };
    let v = pos(r, 2, 0);
    let a = amt(r, c, v, &s);
    let p = post(r, c, Some(a));
    x.posts.push(p);
    let p = post(r, c, None);
    x.posts.push(p);
    x
}

fn xact_try(r: &mut Rng, c: &Cfg) -> Xact {
    let mut x = header(r, c);
    let n = r.range(2, c.max_posts.max(2));
    let roll = r.below(100);
    if !c.bare && roll < c.p_cost {
        return with_costs(r, c, x, n);
    }
    if !c.bare && roll < c.p_cost + c.p_implied {
        return implied(r, c, x, n);
    }
    if !c.bare && roll < c.p_cost + c.p_implied + c.p_multi && c.syms.len() > 2 {
        return multi(r, c, x);
    }
    if !c.bare && r.pct(c.p_loose) {
        return loose(r, c, x, n);
    }
    let sym = if c.bare { String::new() } else { r.pick(&c.syms).clone() };
    let mut posts = vec![];
    for _ in 1..n {
        let v = signed(r, c, c.int_digits, c.frac_digits);
        let a = amt(r, c, v, &sym);
        posts.push(post(r, c, Some(a)));
    }
    balance_off(r, c, &mut posts);
    x.posts = posts;
    x
}

/// Adds the posting(s) that bring the transaction to zero, written or left out.
fn balance_off(r: &mut Rng, c: &Cfg, posts: &mut Vec<Post>) {
    let bal = sums(posts);
    if bal.len() == 1 && r.pct(c.p_null) {
        let p = post(r, c, None);
        insert_at(r, posts, p);
        return;
    }
    for (sym, d) in bal {
        if d.is_zero() && r.pct(50) && posts.len() > 1 {
            continue;
        }
        let a = amt(r, c, num_of(d.neg()), &sym);
        let p = post(r, c, Some(a));
        insert_at(r, posts, p);
    }
}

pub fn with_costs(r: &mut Rng, c: &Cfg, mut x: Xact, n: usize) -> Xact {
    let (_, to) = two_syms(r, c);
    let mut posts = vec![];
    for i in 1..n.max(2) {
        if i == 1 || r.pct(60) {
            let mut from = r.pick(&c.syms).clone();
            if from == to {
                from = two_syms_other(r, c, &to);
            }
            let mut q = pos(r, c.int_digits.min(5), c.frac_digits.min(4));
            if r.pct(c.p_zero) {
                q.int = "0".into();
                q.frac = None;
            } else {
                q.neg = r.pct(40);
            }
            let a = amt(r, c, q, &from);
            let mut p = post(r, c, Some(a));
            let per_unit = r.pct(60);
            let mut cq = pos(r, c.int_digits.min(5), c.frac_digits.min(4));
            if r.pct(c.p_zero) {
                cq.int = "0".into();
                cq.frac = None;
            } else if !per_unit && r.pct(30) {
                cq.neg = true;
            }
            p.cost = Some(Cost {
                per_unit,
                amt: amt(r, c, cq, &to),
                tight: c.odd_style && r.pct(30),
            });
            if r.pct(c.p_lot) {
                let pq = pos(r, 3, 2);
                p.lot = Some(Lot {
                    price: if r.pct(80) { Some(amt(r, c, pq, &to)) } else { None },
                    date: if r.pct(50) { Some(date(r, c.years)) } else { None },
                });
            }
            posts.push(p);
        } else {
            let v = signed(r, c, c.int_digits, c.frac_digits);
            let a = amt(r, c, v, &to);
            posts.push(post(r, c, Some(a)));
        }
    }
    balance_off(r, c, &mut posts);
    x.posts = posts;
    x
}

fn two_syms_other(r: &mut Rng, c: &Cfg, not: &str) -> String {
    loop {
        let s = r.pick(&c.syms);
        if s != not {
            return s.clone();
        }
    }
}

pub fn implied(r: &mut Rng, c: &Cfg, mut x: Xact, n: usize) -> Xact {
    let (a, b) = two_syms(r, c);
    let flip = r.pct(50);
    let mut posts = vec![];
    let k = n.max(2);
    for i in 0..k {
        let first = if i == 0 {
            true
        } else if i == 1 {
            false
        } else {
            r.pct(50)
        };
        let mut q = pos(r, c.int_digits.min(6), c.frac_digits.min(4));
        q.neg = first == flip;
        if r.pct(10) {
            q.neg = !q.neg;
        }
        let am = amt(r, c, q, if first { &a } else { &b });
        let p = post(r, c, Some(am));
        if i < 2 {
            posts.push(p);
        } else {
            insert_at(r, &mut posts, p);
        }
    }
    x.posts = posts;
    x
}

/// Close to a two-commodity exchange, but not one: nothing may be implied.
fn loose(r: &mut Rng, c: &Cfg, x: Xact, n: usize) -> Xact {
    let mut x = implied(r, c, x, n);
    match r.below(3) {
        // a stated cost somewhere
        0 => {
            let n = r.range(1, 2);
            for _ in 0..n {
                let to = r.pick(&x.posts).amt.as_ref().unwrap().sym.clone();
                let from = two_syms_other(r, c, &to);
                let v = pos(r, c.int_digits.min(4), c.frac_digits.min(2));
                let a = amt(r, c, v, &from);
                let mut p = post(r, c, Some(a));
                let cq = pos(r, c.int_digits.min(4), c.frac_digits.min(2));
                p.cost = Some(Cost { per_unit: r.pct(50), amt: amt(r, c, cq, &to), tight: false });
                insert_at(r, &mut x.posts, p);
            }
        }
        // a third commodity
        1 => {
            let s = r.pick(&c.syms).clone();
            let v = signed(r, c, c.int_digits, c.frac_digits);
            let a = amt(r, c, v, &s);
            let p = post(r, c, Some(a));
            insert_at(r, &mut x.posts, p);
        }
        // one side is level
        _ => {
            let all = sums(&x.posts);
            let (s, d) = r.pick(&all).clone();
            let a = amt(r, c, num_of(d.neg()), &s);
            let p = post(r, c, Some(a));
            insert_at(r, &mut x.posts, p);
        }
    }
    x
}

/// Several commodities, each balanced, all written.
fn multi(r: &mut Rng, c: &Cfg, mut x: Xact) -> Xact {
    let k = r.range(3, c.syms.len().min(6));
    let mut posts = vec![];
    for i in 0..k {
        let v = signed(r, c, c.int_digits, c.frac_digits);
        let a = amt(r, c, v, &c.syms[i]);
        posts.push(post(r, c, Some(a)));
    }
    for (sym, d) in sums(&posts) {
        let a = amt(r, c, num_of(d.neg()), &sym);
        let p = post(r, c, Some(a));
        insert_at(r, &mut posts, p);
    }
    x.posts = posts;
    x
}

/// A transaction that must be refused.
pub fn reject(r: &mut Rng, c: &Cfg) -> Xact {
    loop {
        let mut x = header(r, c);
        let n = r.range(1, c.max_posts.max(3));
        if r.pct(50) || c.bare {
            let sym = if c.bare { String::new() } else { r.pick(&c.syms).clone() };
            for _ in 0..n {
                let v = signed(r, c, c.int_digits, c.frac_digits);
                let a = amt(r, c, v, &sym);
                x.posts.push(post(r, c, Some(a)));
            }
            for _ in 0..r.range(2, 3) {
                let p = post(r, c, None);
                insert_at(r, &mut x.posts, p);
            }
        } else {
            for _ in 0..n + 1 {
                let s = r.pick(&c.syms).clone();
                let v = signed(r, c, c.int_digits, c.frac_digits);
                let a = amt(r, c, v, &s);
                x.posts.push(post(r, c, Some(a)));
            }
            let p = post(r, c, None);
            insert_at(r, &mut x.posts, p);
        }
        if matches!(crate::model::eval(&x), crate::model::Class::Reject) {
            return x;
        }
    }
}

pub fn price(r: &mut Rng, c: &Cfg) -> Price {
    let (from, to) = two_syms(r, c);
    Price {
        date: date(r, c.years),
        time: if r.pct(50) { Some(time(r)) } else { None },
        from,
        q: pos(r, c.int_digits.min(4), c.frac_digits.min(4)),
        to,
        wide: c.odd_style && r.pct(20),
    }
}

pub fn comment(r: &mut Rng, c: &Cfg) -> Item {
    let mark = *r.pick(&[";", "#", "*", "|"]);
    let text = match r.below(5) {
        0 => "".to_string(),
        1 => "2023-01-01 not a transaction".to_string(),
        2 => "    Assets  100 EUR".to_string(),
        _ => {
            let long = r.pct(c.p_long);
            format!(" {}", words(r, long))
        }
    };
    Item::C(format!("{}{}", mark, text))
}

pub fn items(r: &mut Rng, c: &Cfg, n: usize) -> Vec<Item> {
    let mut v = vec![];
    for _ in 0..n {
        if r.pct(c.p_comment) {
            v.push(comment(r, c));
        }
        if r.pct(c.p_price) && !c.bare {
            v.push(Item::P(price(r, c)));
        }
        if r.pct(10) {
            v.push(Item::B);
        }
        v.push(Item::X(xact(r, c)));
    }
    v
}

pub fn doc(r: &mut Rng, c: &Cfg, n: usize) -> Doc {
    let n = match c.huge.take() {
        0 if c.max_posts > 20 => n.min(12),
        0 => n,
        huge => huge,
    };
    let mut lines: Vec<Item> = (0..c.filler.take()).map(|i| if i % 3 == 0 { Item::B } else { Item::C("; -".to_string()) }).collect();
    lines.extend(items(r, c, n));
    Doc {
        items: lines,
        crlf: r.pct(25),
        open_end: r.pct(30),
        no_nl: r.pct(20),
    }
}

/// Makes the next document one of unusual size in one respect.
pub fn enlarge(r: &mut Rng, c: &mut Cfg, kind: u64) {
    (c.int_digits, c.frac_digits) = (3, 2);
    (c.p_long, c.p_comment) = (0, c.p_comment.min(5));
    c.max_posts = 3;
    match kind % 6 {
        0 => {
            let n = r.range(300, 900);
            c.accounts = accounts(r, n, 4);
            if r.pct(50) {
                // all side by side
                let base = r.pick(&c.accounts).clone();
                c.accounts = (0..n).map(|i| [&base[..], &[format!("{}{}", segment(r), i)]].concat()).collect();
            }
            let n = r.range(300, 700);
            c.syms = symbols(r, n);
            c.huge.set(r.range(3000, 6000));
        }
        1 => {
            c.max_posts = r.range(600, 3000);
            c.huge.set(r.range(2, 5));
        }
        2 => {
            c.accounts = vec![vec![segment(r)], vec![segment(r), "B".to_string()]];
            c.syms.truncate(3);
            c.huge.set(r.range(17_000, 24_000));
        }
        3 => {
            let n = r.range(20, 60);
            c.accounts = accounts(r, n, 120);
            c.huge.set(r.range(200, 600));
        }
        4 => {
            c.filler.set(r.range(65_500, 66_500));
            c.huge.set(r.range(5, 50));
        }
        _ => c.huge.set(r.range(17_000, 24_000)),
    }
}

/// How many transactions: mostly few, sometimes many.
pub fn count(r: &mut Rng) -> usize {
    if r.below(150) == 0 {
        return r.range(150, 400);
    }
    match r.below(20) {
        0 => r.range(40, 120),
        1 | 2 => r.range(10, 40),
        3 => 0,
        _ => r.range(1, 8),
    }
}

pub fn delivery(r: &mut Rng) -> Delivery {
    let chunks = match r.below(8) {
        0 => vec![],
        1 => vec![1],
        2 => vec![r.range(2, 9) as u32],
        3 => vec![r.range(10, 200) as u32],
        4 => vec![4096],
        5 => vec![8191],
        6 => (0..r.range(2, 12)).map(|_| r.range(1, 40) as u32).collect(),
        _ => (0..r.range(2, 6)).map(|_| r.below(3000) as u32).collect(),
    };
    let eintr = match r.below(5) {
        0 => vec![1],
        1 => (0..r.range(2, 9)).map(|_| r.pct(30) as u8 * r.range(1, 3) as u8).collect(),
        _ => vec![],
    };
    Delivery {
        chunks,
        eintr,
        fail: None,
        delay: if r.pct(20) { r.below(60_000) as u32 } else { 0 },
    }
}

const ZONES: [&str; 7] = ["UTC", "EST5EDT", "XXX-14", "YYY12", "CET-1CEST", "IST-5:30", "NZST-12"];

pub fn env(r: &mut Rng, hostile_alloc: bool) -> Env {
    Env {
        hash: r.next() >> 12,
        alloc: if hostile_alloc { r.below(3) as u8 } else { 0 },
        clock: match r.below(5) {
            0 => r.below(100_000) as i64,
            1 => 4_000_000_000 + r.below(100_000_000) as i64,
            2 => 1_700_000_000,
            _ => r.below(2_500_000_000) as i64,
        },
        tz: r.pick(&ZONES).to_string(),
        stack: 0,
    }
}

/// A way to load a document: text, reader or file (which is added to the plan).
pub fn load_op(r: &mut Rng, plan: &mut Plan, doc: usize) -> Op {
    match r.below(5) {
        0 => Op::Text { doc },
        1 | 2 => Op::Read {
            doc,
            del: delivery(r),
            edit: Edit::default(),
        },
        _ => {
            let file = add_file(r, plan, doc);
            Op::File { file, abs: r.pct(30) }
        }
    }
}

pub fn add_file(r: &mut Rng, plan: &mut Plan, doc: usize) -> usize {
    let i = plan.files.len();
    let name = match r.below(9) {
        4 => format!("./f{}.ledger", i),
        5 => format!("sub/../f{}.l", i),
        6 if i < 26 => ((b'a' + i as u8) as char).to_string(),
        7 => format!("{}é日-{}", segment(r).replace(' ', "_").replace(['/', '\'', '&', '!'], "_").chars().take(60).collect::<String>(), i),
        8 if r.pct(50) => {
            let c = *r.pick(&['=', '+', ',', '@', '%', '{', '}', '[', ']', '(', ')', '^', ':', ';', '$', '&', '|', '!', '~', '`', '<', '>']);
            format!("a{}b{}.ledger", c, i)
        }
        8 => format!("only{}/here/f.ledger", i),
        0 => format!("sub/f{}.ledger", i),
        1 => format!("sub/deep/x{}.journal", i),
        2 => format!("{}.dat", letters(r, 3) + &i.to_string()),
        _ => format!("f{}.ledger", i),
    };
    plan.files.push(File {
        name,
        doc,
        del: delivery(r),
        kind: 0,
        open_errno: 0,
        world: 0,
        edit: Edit::default(),
    });
    i
}

pub fn choices(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => (0..r.range(1, 4)).map(|_| r.below(8) as u8).collect(),
        _ => (0..r.range(8, 80)).map(|_| r.below(24) as u8).collect(),
    }
}
