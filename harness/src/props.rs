//! The properties: what each one generates, executes and requires.

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use crate::ast::*;
use crate::dec::Dec;
use crate::exec::*;
use crate::gen;
use crate::model::*;
use crate::rng::{mix, Rng};

/// `Some("class: what happened")`
pub type Bad = Option<String>;

pub struct Verdict {
    pub bad: Bad,
    /// counts by name, added up over all runs
    pub marks: BTreeMap<String, u64>,
    pub trivial: bool,
    /// hash of what was reached
    pub state: u64,
}

fn mark(v: &mut Verdict, k: &str, n: u64) {
    *v.marks.entry(k.to_string()).or_default() += n;
}

// ------------------------------------------------------------------ comparisons

pub fn cmp_money(m: &Money, r: &Option<RMoney>) -> Bad {
    match r {
        None => Some(format!("no amount instead of {} {}", m.0.to_string(), m.1)),
        Some(r) if r.0 != m.0 || r.1 != m.1 => Some(format!(
            "{} {} instead of {} {}",
            r.0.to_string(),
            r.1,
            m.0.to_string(),
            m.1
        )),
        _ => None,
    }
}

pub fn cmp_cost(m: &MCost, r: &Option<RMoney>) -> Bad {
    let ok = match (m, r) {
        (MCost::None, None) => true,
        (MCost::Exact(d, s), Some(r)) => r.0 == *d && r.1 == *s,
        (MCost::Approx(d, s), Some(r)) => r.0.close(d) && r.1 == *s,
        _ => false,
    };
    if ok {
        None
    } else {
        Some(format!("cost {:?} instead of {:?}", r, m))
    }
}

pub fn cmp_xact(m: &MXact, r: &RXact) -> Bad {
    if m.date != r.date || m.aux != r.aux {
        return Some(format!("dates {} {:?} instead of {} {:?}", r.date, r.aux, m.date, m.aux));
    }
    if m.payee != r.payee {
        return Some(format!("payee {:?} instead of {:?}", clip(&r.payee), clip(&m.payee)));
    }
    if m.note != r.note {
        return Some(format!("note {:?} instead of {:?}", r.note, m.note));
    }
    if m.posts.len() != r.posts.len() {
        return Some(format!("{} postings instead of {}", r.posts.len(), m.posts.len()));
    }
    for (k, (mp, rp)) in m.posts.iter().zip(&r.posts).enumerate() {
        if mp.account != rp.account {
            return Some(format!("posting {}: account {:?} instead of {:?}", k, rp.account, mp.account));
        }
        if let Some(b) = cmp_money(&mp.amount, &rp.amount) {
            return Some(format!("posting {}: {}", k, b));
        }
        if let Some(b) = cmp_cost(&mp.cost, &rp.cost) {
            return Some(format!("posting {}: {}", k, b));
        }
        let ok = match &mp.note {
            MNote::None => rp.note.is_none(),
            MNote::Is(n) => rp.note.as_ref() == Some(n),
            MNote::Maybe(n) => rp.note.is_none() || rp.note.as_ref() == Some(n),
        };
        if !ok {
            return Some(format!("posting {}: note {:?} instead of {:?}", k, rp.note, mp.note));
        }
    }
    None
}

fn clip(s: &str) -> String {
    s.chars().take(60).collect()
}

pub fn cmp_xacts(m: &[MXact], r: &[RXact]) -> Bad {
    for (i, (a, b)) in m.iter().zip(r).enumerate() {
        if let Some(bad) = cmp_xact(a, b) {
            return Some(format!("transaction {}: {}", i, bad));
        }
    }
    if m.len() != r.len() {
        return Some(format!("{} transactions instead of {}", r.len(), m.len()));
    }
    None
}

pub fn cmp_amounts(m: Option<&BTreeMap<String, Dec>>, r: &[RMoney]) -> Bad {
    let mut seen: BTreeMap<&str, Dec> = BTreeMap::new();
    for a in r {
        if seen.insert(&a.1, a.0).is_some() {
            return Some(format!("two amounts in {:?}", a.1));
        }
    }
    let empty = BTreeMap::new();
    let m = m.unwrap_or(&empty);
    for (s, d) in m {
        let got = seen.remove(s.as_str()).unwrap_or(Dec::ZERO);
        if got != *d {
            return Some(format!("{} {} instead of {} {}", got.to_string(), s, d.to_string(), s));
        }
    }
    for (s, d) in seen {
        if !d.is_zero() {
            return Some(format!("{} {} instead of nothing", d.to_string(), s));
        }
    }
    None
}

/// Amounts of all accounts against the model. With `exact`, also the set of accounts.
pub fn cmp_accounts(m: &Model, r: &[RAccount], exact: bool) -> Bad {
    let own = m.own();
    let totals = m.totals();
    if exact {
        let want: BTreeSet<Vec<String>> = m.preorder().into_iter().collect();
        let mut got = BTreeSet::new();
        for a in r {
            if !got.insert(a.path.clone()) {
                return Some(format!("account {:?} twice", a.path));
            }
        }
        if let Some(x) = want.difference(&got).next() {
            return Some(format!("account {:?} is missing", x));
        }
        if let Some(x) = got.difference(&want).next() {
            return Some(format!("account {:?} was never posted to", x));
        }
    }
    let by: BTreeMap<&Vec<String>, &RAccount> = r.iter().map(|a| (&a.path, a)).collect();
    for path in totals.keys() {
        if !by.contains_key(path) {
            return Some(format!("account {:?} is missing", path));
        }
    }
    for a in r {
        if let Some(b) = cmp_amounts(own.get(&a.path), &a.own) {
            return Some(format!("own amount of {:?}: {}", a.path, b));
        }
        if let Some(b) = cmp_amounts(totals.get(&a.path), &a.total) {
            return Some(format!("total of {:?}: {}", a.path, b));
        }
    }
    None
}

/// "20 EUR-3.5 USD" -> amounts
fn parse_amounts(mut t: &str) -> Option<Vec<RMoney>> {
    let mut v = vec![];
    while !t.is_empty() {
        let t2 = t.trim_start_matches(|c| c == ' ' || c == ',');
        let mut end = 0;
        for (i, c) in t2.char_indices() {
            if c.is_ascii_digit() || c == '.' || (c == '-' && i == 0) {
                end = i + 1;
            } else {
                break;
            }
        }
        let d = Dec::parse(&t2[..end])?;
        let rest = &t2[end..];
        let (sym, rest) = match rest.strip_prefix(' ') {
            Some(r) => {
                let e = r.find(|c: char| c.is_ascii_digit() || c == '-' || c == ' ' || c == ',').unwrap_or(r.len());
                (&r[..e], &r[e..])
            }
            None => ("", rest),
        };
        v.push(RMoney(d, sym.to_string()));
        t = rest;
    }
    Some(v)
}

/// The balance report: one line per account, in order, with the totals. `order`: also check the order.
pub fn cmp_balance(m: &Model, lines: &[String]) -> Bad {
    let totals = m.totals();
    let paths = m.preorder();
    if lines.len() != paths.len() {
        return Some(format!("{} report lines instead of {}", lines.len(), paths.len()));
    }
    let mut by: BTreeMap<String, Vec<&String>> = BTreeMap::new();
    for l in lines {
        let Some(rest) = l.strip_prefix("Account ") else {
            return Some(format!("report line {:?}", clip(l)));
        };
        let Some(at) = rest.find(" has balance ") else {
            return Some(format!("report line {:?}", clip(l)));
        };
        by.entry(rest[..at].to_string()).or_default().push(l);
    }
    for path in &paths {
        let name = path.join(":");
        let Some(ls) = by.get(&name) else {
            return Some(format!("no report line for {:?}", name));
        };
        if ls.len() != 1 {
            return Some(format!("{} report lines for {:?}", ls.len(), name));
        }
        let text = &ls[0]["Account ".len() + name.len() + " has balance ".len()..];
        let total = totals.get(path);
        if total.map_or(false, |t| t.contains_key("") && t.len() > 1) {
            continue; // cannot be told apart in the text
        }
        let Some(got) = parse_amounts(text) else {
            return Some(format!("report line {:?}", clip(ls[0])));
        };
        if let Some(b) = cmp_amounts(total, &got) {
            return Some(format!("report line of {:?}: {}", name, b));
        }
    }
    None
}

pub fn cmp_order(m: &Model, lines: &[String]) -> Bad {
    for (p, l) in m.preorder().iter().zip(lines) {
        let name = p.join(":");
        if !l.starts_with(&format!("Account {} has balance ", name)) {
            return Some(format!("report line {:?} where {:?} belongs", clip(l), name));
        }
    }
    None
}

fn class(name: &str, b: Bad) -> Bad {
    b.map(|t| format!("{}: {}", name, t))
}

// ------------------------------------------------------------------ generation

pub const ALL: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C22", "C23", "C24", "C25", "C26",
];

fn base(prop: &str, seed: u64, index: u64) -> (Rng, Plan) {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ mix(index.wrapping_mul(0x1000_0001)));
    let mut r = Rng::new(h);
    let hostile = matches!(prop, "C06" | "C07" | "C10" | "C15" | "C16" | "C25");
    let plan = Plan {
        prop: prop.to_string(),
        seed,
        index,
        env: gen::env(&mut r, hostile),
        ..Default::default()
    };
    (r, plan)
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Plan {
    let mut salt = 0;
    loop {
        let (mut r, mut plan) = base(prop, seed.wrapping_add(salt << 40), index);
        plan.seed = seed;
        fill(&mut r, &mut plan);
        if valid(&plan) {
            return plan;
        }
        salt += 1;
        if salt > 200 {
            panic!("no valid plan for {} {} {}", prop, seed, index);
        }
    }
}

fn push_doc(plan: &mut Plan, d: Doc) -> usize {
    plan.docs.push(d);
    plan.docs.len() - 1
}

fn some_name(r: &mut Rng, c: &gen::Cfg) -> String {
    let a = r.pick(&c.accounts).clone();
    match r.below(14) {
        6 => format!("{}:Nope{}:", a.join(":"), gen::segment(r)),
        7 => format!(":{}", a.join(":")),
        8 => format!("{}::{}", a[..r.range(1, a.len())].join(":"), gen::segment(r)),
        9 => {
            let mut t = a.join(":");
            t.pop();
            // "A:" for "A" is not stated
            if t.is_empty() || t.ends_with(':') { "?".into() } else { t }
        }
        10 => if r.pct(50) { a.join(":").to_uppercase() } else { a.join(":").to_lowercase() },
        11 => if r.pct(50) { format!("{} ", a.join(":")) } else { format!(" {}", a.join(":")) },
        0 => format!("{}:{}", a.join(":"), gen::segment(r)),
        1 => gen::segment(r),
        2 => a[..r.range(1, a.len())].join(":"),
        3 => {
            let mut a = a;
            let l = a.len() - 1;
            a[l].push('x');
            a.join(":")
        }
        4 => a.last().unwrap().clone(),
        5 => format!("{}:{}", gen::segment(r), a.join(":")),
        _ => a.join(":"),
    }
}

fn quiet_op(r: &mut Rng, c: &gen::Cfg) -> Op {
    match r.below(5) {
        0 => Op::Report,
        1 => Op::Totals,
        2 => Op::Move,
        _ => Op::Find { name: some_name(r, c) },
    }
}

fn fail(r: &mut Rng, size: usize) -> Fail {
    Fail {
        at: match r.below(6) {
            0 => size,
            1 => 0,
            _ => r.below(size + 1),
        },
        kind: r.below(22) as u8,
        once: r.pct(25),
    }
}

/// Makes the bytes invalid text.
fn spoil(r: &mut Rng, bytes: &[u8]) -> Edit {
    if r.pct(30) {
        // cut inside a multi-byte character
        let cuts: Vec<usize> = (1..bytes.len()).filter(|i| bytes[*i] & 0xC0 == 0x80).collect();
        if !cuts.is_empty() {
            return Edit {
                cut: Some(*r.pick(&cuts)),
                splice: None, more: vec![],
            };
        }
    }
    Edit {
        cut: None,
        splice: Some(Splice {
            at: r.below(bytes.len() + 1),
            len: 0,
            with: vec![*r.pick(&[0xFFu8, 0xC0, 0xFE, 0xF5])],
        }),
        more: vec![],
    }
}

/// Anything at all in place of the text.
fn wreck(r: &mut Rng, bytes: &[u8]) -> Edit {
    const SPECIAL: &[u8] = b" ;:@{}[]()=-.,\"\n\r\t#*|P0123456789~!&'\\/%+<>^$\0";
    const TOKENS: [&str; 48] = [
        "include ", "include x\n", "include\n", "P ", "P 2023-01-01 ", "@@ ", "@ ", "@@", "{", "}", "[", "]", "{}", "[]", "\n\n", "\n ", "\n    ", "\r",
        "\r\n", "  ", "  ;", " ;", ";", "account A\n", "alias x=y\n", "comment\n", "end\n", "~ monthly\n", "= /x/\n", "D 1000 EUR\n", "!include a\n",
        "\u{FEFF}", "A:", ":::", "::", "--", "2023/01/01 x\n", "Y 2023\n", "\u{85}", "\u{a0}", "\u{2028}", "\u{1F600}", "\u{202e}", "2023-02-30",
        "=2023-01-01", "(10 EUR)", "= 5 EUR", "\t",
    ];
    let some_bytes = |r: &mut Rng, n: usize| -> Vec<u8> {
        let kind = r.below(3);
        (0..n)
            .map(|_| match kind {
                0 => r.below(256) as u8,
                1 => *r.pick(SPECIAL),
                _ => {
                    if r.pct(70) {
                        *r.pick(SPECIAL)
                    } else {
                        r.below(128) as u8
                    }
                }
            })
            .collect()
    };
    let mut e = Edit::default();
    if r.pct(10) {
        let n = r.range(0, 400);
        e.splice = Some(Splice { at: 0, len: bytes.len(), with: some_bytes(r, n) });
        return e;
    }
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 6, 12]) {
        let at = r.below(bytes.len() + 1);
        if r.below(60) == 0 {
            // one thing over and over
            let (n, with) = (*r.pick(&[50, 400, 3000, 40_000, 150_000]), *r.pick(&["A:", ":", "a", "{", "[", "-", ";", "@", " ", "\n", "\r", "A:B:", "é", "(", "\n; ", "P ", "  "]));
            e.more.push(Splice { at, len: 0, with: with.repeat(n / with.len()).into_bytes() });
            continue;
        }
        let sp = match r.below(8) {
            0 => {
                let n = r.range(1, 8);
                Splice { at, len: r.below(2) * n, with: some_bytes(r, n) }
            }
            1 => Splice { at, len: r.range(1, 40), with: vec![] },
            2 => {
                let from = r.below(bytes.len() + 1);
                let to = (from + r.range(1, 80)).min(bytes.len());
                Splice { at, len: 0, with: bytes[from..to].to_vec() }
            }
            3 | 4 => Splice { at, len: r.below(3), with: r.pick(&TOKENS).as_bytes().to_vec() },
            5 => {
                // at the start of a line
                let at = bytes[..at].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
                Splice { at, len: 0, with: r.pick(&TOKENS).as_bytes().to_vec() }
            }
            6 => Splice { at, len: 1, with: vec![bytes.get(at).copied().unwrap_or(b' ') ^ (1 << r.below(8))] },
            _ => Splice { at, len: 1, with: vec![*r.pick(SPECIAL)] },
        };
        e.more.push(sp);
    }
    if r.pct(10) {
        e.cut = Some(r.below(bytes.len() + 1));
    }
    e
}

/// No number is so long that sums could be rounded.
fn short_numbers(bytes: &[u8]) -> bool {
    let mut n = 0;
    for b in bytes {
        n = if b.is_ascii_digit() || b"-.,_".contains(b) { n + 1 } else { 0 };
        if n > 12 {
            return false;
        }
    }
    true
}

fn dummy_dir() -> &'static Path {
    Path::new(SCRATCH_SHAPE)
}
/// same length as the real scratch directory, so rendered offsets agree
pub const SCRATCH_SHAPE: &str = "/dev/shm/lsim-00000000/w00/run";

fn rendered(plan: &Plan, doc: usize) -> (Vec<u8>, Spans) {
    render(&plan.docs[doc], &|f, abs| file_path(dummy_dir(), plan, f, abs))
}

/// Mostly flat, sometimes deep.
fn tree_size(r: &mut Rng) -> (usize, usize) {
    match r.below(12) {
        0 => (r.range(4, 12), r.range(3, 12)),
        _ => (r.below(4), r.below(3)),
    }
}

/// Splits items into files that include each other; returns the root document.
fn include_tree(r: &mut Rng, plan: &mut Plan, c: &gen::Cfg, depth: usize, budget: &mut usize) -> usize {
    let mut items = vec![];
    let n = if r.pct(4) { gen::count(r).min(60) } else { r.range(0, 3) };
    for _ in 0..n.max(if depth == 0 { 1 } else { 0 }) {
        items.extend(gen::items(r, c, 1));
        if depth > 0 && *budget > 0 && r.pct(60) {
            *budget -= 1;
            let d = include_tree(r, plan, c, depth - 1, budget);
            let f = gen::add_file(r, plan, d);
            items.push(Item::I { file: f, abs: r.pct(30) });
            if r.pct(15) {
                items.push(Item::I { file: f, abs: r.pct(30) });
            }
        }
    }
    if depth > 0 && *budget > 0 && r.pct(70) {
        *budget -= 1;
        let d = include_tree(r, plan, c, depth - 1, budget);
        let f = gen::add_file(r, plan, d);
        let at = if r.pct(50) { items.len() } else { 0 };
        items.insert(at, Item::I { file: f, abs: r.pct(30) });
    }
    push_doc(
        plan,
        Doc {
            items,
            crlf: r.pct(25),
            open_end: r.pct(40),
            no_nl: r.pct(25),
        },
    )
}

fn verb(r: &mut Rng) -> String {
    r.pick(&["b", "bal", "balance", "accounts", "accounts"]).to_string()
}

fn bad_lines(r: &mut Rng) -> Item {
    if r.pct(50) {
        // good postings around a bad one
        let bad = *r.pick(&[
            "    Bad  1.2.3 EUR\n",
            "    Bad  10 EUR @ 1,2,3 USD\n",
            "    Bad  10 EUR {5 USD\n",
            "    Bad  10 EUR @\n",
            "    Bad  - EUR\n",
            "Bad unindented\n",
            "zzz\n",
        ]);
        let mut t = format!("{} Broken\n", gen::date(r, (2020, 2025)));
        let n = r.below(6);
        let mut sum = 0i64;
        for k in 0..n {
            let v = if k + 1 == n && r.pct(50) { -sum } else { r.range(1, 99) as i64 };
            sum += v;
            t.push_str(&format!("    {}:{}  {} EUR\n", gen::segment(r), gen::segment(r), v));
            if r.pct(10) {
                t.push_str("    ; note\n");
            }
        }
        t.push_str(bad);
        for _ in 0..r.below(3) {
            t.push_str(&format!("    {}  {} EUR\n", gen::segment(r), r.below(99)));
        }
        if r.pct(50) {
            t.push_str("    Rest\n");
        }
        return Item::Bad(t);
    }
    let t = *r.pick(&[
        "2023-13-45 No such day\n    A  10 EUR\n    B\n",
        "2023-01-01 Broken\n    A  10 EUR\nB unindented\n",
        "2023-01-01 Broken\n    A  1.2.3 EUR\n    B\n",
        "2023-01-01 Broken\n    A  10 EUR @ 1,2,3 USD\n    B\n",
        "2023-01-01 Broken\n    A  10 EUR\n    B\n    C\n",
        "2023-01-01 Broken\n    Zz:New  10 EUR\n    Zz:Other  20 USD\n    Zz:Third\n",
        "2023-01-01 Broken\n    A  10 EUR {5 USD\n    B\n",
        "2023-01-01 Broken\n    A  10 EUR @\n    B\n",
        "2023-01-01=2023-99-01 Broken\n    A  10 EUR\n    B\n",
        "20230101 Broken\n    A  10 EUR\n    B\n",
        "zzz not a directive\n",
        "    A  10 EUR\n",
        "P 2023-01-01 EUR x USD\n",
        "P 2023-01-01\n",
        "include no-such-file.ledger\n",
        "2023-01-01 Lonely\n    A  10 EUR\n",
    ]);
    Item::Bad(t.to_string())
}

fn fill(r: &mut Rng, plan: &mut Plan) {
    let mut c = gen::cfg(r);
    let prop = plan.prop.clone();
    let huge = plan.index % 1500 == 700
        && !matches!(prop.as_str(), "C02" | "C09" | "C11" | "C13" | "C14" | "C17" | "C19" | "C22" | "C23" | "C24" | "C26");
    if huge {
        gen::enlarge(r, &mut c, plan.index / 1500);
    }
    fill_with(r, plan, c);
    if huge {
        // looking at everything takes long
        if plan.prop != "C08" {
            let n = if plan.docs.iter().any(|d| d.items.len() > 10_000) { 2 } else { 4 };
            plan.threads[0][0].truncate(n);
        }
        // nor byte by byte
        let mut calm = |d: &mut Delivery| {
            d.chunks = vec![*r.pick(&[0, 511, 4096, 8191, 8192, 65_536])];
            d.eintr = vec![];
        };
        plan.files.iter_mut().for_each(|f| calm(&mut f.del));
        for op in plan.threads.iter_mut().flatten().flatten() {
            if let Op::Read { del, .. } = op {
                calm(del);
            }
        }
    }
}

fn fill_with(r: &mut Rng, plan: &mut Plan, mut c: gen::Cfg) {
    let prop = plan.prop.clone();
    match prop.as_str() {
        "C01" => {
            let mut ops = vec![];
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                let n = gen::count(r);
                let d = gen::doc(r, &c, n);
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
            }
            plan.threads = vec![vec![ops]];
        }
        "C02" => {
            let mut roots = vec![];
            for _ in 0..r.range(1, 3) {
                let (mut budget, depth) = tree_size(r);
                let d = include_tree(r, plan, &c, depth, &mut budget);
                roots.push(gen::add_file(r, plan, d));
            }
            let mut op = None;
            if r.pct(25) {
                // a reader, broken itself or leading to a broken file
                let d = if r.pct(50) {
                    let (mut budget, depth) = tree_size(r);
                    include_tree(r, plan, &c, depth, &mut budget)
                } else {
                    let n = gen::count(r).max(1);
                    let d = gen::doc(r, &c, n);
                    push_doc(plan, d)
                };
                op = Some(Op::Read {
                    doc: d,
                    del: gen::delivery(r),
                    edit: Edit::default(),
                });
                roots.clear();
            }
            if let Some(Op::Read { doc, del, edit }) = &mut op {
                let own = r.pct(60);
                if own || !(0..plan.files.len()).any(|f| reaches_file(plan, *doc, f)) {
                    let bytes = rendered(plan, *doc).0;
                    if r.pct(25) {
                        *edit = spoil(r, &bytes);
                        edit.cut = None;
                    }
                    if *edit == Edit::default() {
                        del.fail = Some(fail(r, bytes.len()));
                    }
                    plan.threads = vec![vec![vec![op.unwrap()]]];
                    return;
                }
            }
            let reached: Vec<usize> = (0..plan.files.len()).filter(|f| match &op {
                Some(Op::Read { doc, .. }) => reaches_file(plan, *doc, *f),
                _ => true,
            }).collect();
            let target = *r.pick(&reached);
            let bytes = rendered(plan, plan.files[target].doc).0;
            match r.below(10) {
                0 => plan.files[target].kind = 1,
                1 => plan.files[target].kind = 2,
                2 => {
                    plan.files[target].kind = r.range(3, 4) as u8;
                    plan.files[target].open_errno = r.below(14) as u8;
                }
                3 | 4 => plan.files[target].edit = spoil(r, &bytes),
                _ => plan.files[target].del.fail = Some(fail(r, bytes.len())),
            }
            let op = if let Some(op) = op {
                op
            } else if r.pct(70) {
                Op::Cmd {
                    verb: verb(r),
                    files: roots,
                    abs: r.pct(30),
                    style: r.below(4) as u8,
                }
            } else {
                // straight loads
                plan.threads = vec![vec![roots.iter().map(|f| Op::File { file: *f, abs: r.pct(30) }).collect()]];
                return;
            };
            plan.threads = vec![vec![vec![op]]];
        }
        "C03" => {
            let mut ops = vec![];
            for _ in 0..*r.pick(&[0, 0, 1, 2]) {
                let n = r.range(0, 5);
                let d = gen::doc(r, &c, n);
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
            }
            let style = r.below(10);
            let mut d = if style < 3 {
                let (mut budget, depth) = tree_size(r);
                include_tree(r, plan, &c, depth.max(1), &mut budget)
            } else {
                let n = gen::count(r).max(1);
                let d = gen::doc(r, &c, n);
                push_doc(plan, d)
            };
            // which source fails
            if style >= 3 && r.pct(35) {
                let at = r.below(plan.docs[d].items.len() + 1);
                let bad = bad_lines(r);
                plan.docs[d].items.insert(at, bad);
                let op = gen::load_op(r, plan, d);
                ops.push(op);
            } else {
                let inner: Vec<usize> = (0..plan.files.len()).filter(|f| reaches(plan, d, plan.files[*f].doc)).collect();
                if !inner.is_empty() && r.pct(60) {
                    let f = *r.pick(&inner);
                    let bytes = rendered(plan, plan.files[f].doc).0;
                    if r.pct(20) {
                        plan.files[f].kind = r.range(1, 4) as u8;
                        plan.files[f].open_errno = r.below(14) as u8;
                    } else {
                        plan.files[f].del.fail = Some(fail(r, bytes.len()));
                    }
                    let op = gen::load_op(r, plan, d);
                    ops.push(op);
                } else {
                    let bytes = rendered(plan, d).0;
                    let mut del = gen::delivery(r);
                    let mut edit = Edit::default();
                    if r.pct(15) {
                        edit = spoil(r, &bytes);
                        edit.cut = None;
                    } else {
                        del.fail = Some(fail(r, bytes.len()));
                    }
                    if r.pct(60) || edit != Edit::default() {
                        if edit.splice.is_none() && del.fail.is_none() {
                            del.fail = Some(fail(r, bytes.len()));
                        }
                        ops.push(Op::Read { doc: d, del, edit });
                    } else {
                        let f = gen::add_file(r, plan, d);
                        plan.files[f].del = del;
                        ops.push(Op::File { file: f, abs: r.pct(30) });
                    }
                }
            }
            if r.pct(40) {
                // life goes on
                let n = r.range(1, 4);
                let dd = gen::doc(r, &c, n);
                d = push_doc(plan, dd);
                ops.push(Op::Text { doc: d });
            }
            ops.push(Op::Report);
            plan.threads = vec![vec![ops]];
        }
        "C04" => {
            let mut ops = vec![];
            if r.pct(30) {
                let n = r.range(1, 4);
                let d = gen::doc(r, &c, n);
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
            }
            let n = gen::count(r).max(1);
            let d = gen::doc(r, &c, n);
            let d = push_doc(plan, d);
            let (bytes, spans) = rendered(plan, d);
            // anywhere, but often around the end of a transaction
            let cut = if r.pct(40) && !spans.xacts.is_empty() {
                let x = r.pick(&spans.xacts);
                let at = *r.pick(&[x.start, x.done.unwrap_or(bytes.len()), *x.posts.last().unwrap()]);
                (at + r.below(12)).saturating_sub(6).min(bytes.len())
            } else {
                r.below(bytes.len() + 1)
            };
            let edit = Edit {
                cut: Some(cut),
                splice: None, more: vec![],
            };
            if r.pct(50) {
                ops.push(Op::Read {
                    doc: d,
                    del: gen::delivery(r),
                    edit,
                });
            } else {
                let f = gen::add_file(r, plan, d);
                plan.files[f].edit = edit;
                ops.push(Op::File { file: f, abs: r.pct(30) });
            }
            plan.threads = vec![vec![ops]];
        }
        "C05" => {
            c.p_null = 100;
            if r.pct(30) {
                (c.int_digits, c.frac_digits) = *r.pick(&[(16, 6), (16, 6), (4, 14), (1, 20), (9, 9), (20, 0)]);
                c.p_cost = 0;
                c.p_implied = 0;
            }
            c.p_implied = c.p_implied.min(5);
            c.p_zero = *r.pick(&[0, 5, 20]);
            let mut ops = vec![];
            for _ in 0..r.range(1, 3) {
                let n = gen::count(r).min(40).max(1);
                let mut d = gen::doc(r, &c, n);
                if r.pct(25) {
                    let x = gen::reject(r, &c);
                    let at = r.below(d.items.len() + 1);
                    d.items.insert(at, Item::X(x));
                }
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
            }
            plan.threads = vec![vec![ops]];
        }
        "C06" | "C07" | "C15" | "C16" => {
            if c.huge.get() == 0 && (prop == "C07" || r.pct(20)) {
                let deepest = if r.pct(5) { 40 } else { 6 };
                let depth = r.range(1, deepest);
                let n = *r.pick(&[5, 20, 60, 120]);
                c.accounts = gen::accounts(r, n, depth);
                let n = *r.pick(&[2, 4, 10, 40]);
                c.syms = gen::symbols(r, n);
                c.max_posts = *r.pick(&[2, 5, 9, 20]);
            }
            if prop == "C15" {
                c.p_cost = 25;
                c.p_price = 25;
                c.odd_style = r.pct(80);
                c.bare = false;
            }
            if prop == "C06" && r.pct(20) {
                (c.int_digits, c.frac_digits) = *r.pick(&[(14, 6), (4, 14), (1, 20), (9, 9)]);
                c.p_cost = 0;
                c.p_implied = 0;
            }
            let mut ops = vec![];
            let loads = *r.pick(&[1, 2, 3, 5, 8]);
            let failures = r.pct(30);
            for _ in 0..loads {
                let n = if prop == "C07" {
                    *r.pick(&[1, 3, 5, 9, 17, 40])
                } else {
                    gen::count(r).min(40)
                };
                let mut cc = c.clone();
                if prop == "C15" && r.pct(20) {
                    // some amounts without a symbol
                    cc.bare = true;
                }
                let d = gen::doc(r, &cc, n);
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
                if failures && r.pct(35) {
                    ops.push(failing_load(r, plan, &cc));
                }
                for _ in 0..r.below(4) {
                    ops.push(quiet_op(r, &c));
                }
            }
            if prop == "C06" {
                ops.push(Op::Report);
            }
            plan.threads = vec![vec![ops]];
        }
        "C25" => {
            if r.pct(40) {
                let depth = r.range(1, 6);
                let n = *r.pick(&[5, 12, 20, 60]);
                c.accounts = gen::accounts(r, n, depth);
                let n = *r.pick(&[2, 4, 10, 30]);
                c.syms = gen::symbols(r, n);
            }
            c.p_price = *r.pick(&[0, 10, 40]);
            let mut ops = vec![];
            let failures = r.pct(25);
            for _ in 0..*r.pick(&[2, 3, 3, 5, 9]) {
                let n = *r.pick(&[1, 1, 2, 3, 5, 9]);
                let mut d = gen::doc(r, &c, n);
                match r.below(10) {
                    0..=5 => {
                        for i in &mut d.items {
                            if let Item::X(x) = i {
                                x.note = None;
                                for p in &mut x.posts {
                                    p.inline = None;
                                    p.lot = None;
                                    if let Some(c) = &mut p.cost {
                                        c.per_unit = false;
                                    }
                                }
                            }
                        }
                        let doc = push_doc(plan, d);
                        ops.push(Op::Api { doc, how: r.below(32) as u8 });
                    }
                    6 if failures => ops.push(failing_load(r, plan, &c)),
                    _ => {
                        let d = push_doc(plan, d);
                        ops.push(gen::load_op(r, plan, d));
                    }
                }
                if r.pct(35) {
                    ops.push(Op::Commit);
                }
                for _ in 0..r.below(3) {
                    ops.push(quiet_op(r, &c));
                }
            }
            if r.pct(80) {
                ops.push(Op::Commit);
            }
            ops.push(Op::Report);
            plan.threads = vec![vec![ops]];
        }
        "C26" => {
            let pairs = r.range(1, 4);
            let content = |r: &mut Rng, plan: &mut Plan, c: &gen::Cfg, pair: usize| {
                let n = *r.pick(&[0, 1, 1, 2, 3]);
                let mut items = gen::items(r, c, n);
                for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
                    if pair + 1 < pairs {
                        let file = 2 * r.range(pair + 1, pairs - 1) + r.below(2);
                        let at = r.below(items.len() + 1);
                        items.insert(at, Item::I { file, abs: r.pct(25) });
                    }
                }
                push_doc(plan, Doc { items, crlf: r.pct(20), ..Default::default() })
            };
            for pair in 0..pairs {
                let d = content(r, plan, &c, pair);
                let f = gen::add_file(r, plan, d);
                let d = content(r, plan, &c, pair);
                let mut twin = plan.files[f].clone();
                (twin.doc, twin.world, twin.del) = (d, 1, gen::delivery(r));
                plan.files.push(twin);
            }
            let mut sessions = vec![];
            for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                let mut ops = vec![];
                for _ in 0..r.range(2, 8) {
                    let file = r.below(2 * pairs);
                    ops.push(match r.below(12) {
                        0 | 1 => Op::Chdir(r.below(2) as u8),
                        2 => Op::Remove { file },
                        3..=5 => {
                            // often one that was just read
                            let file = if r.pct(60) { r.below(2) } else { file };
                            let doc = match r.below(10) {
                                0 => plan.files[file].doc,
                                1..=4 => {
                                    let like = plan.docs[plan.files[file].doc].clone();
                                    push_doc(plan, other_digits(like))
                                }
                                _ => content(r, plan, &c, file / 2),
                            };
                            Op::Rewrite { file, doc, swap: r.pct(50) }
                        }
                        6..=8 => {
                            let files = (0..*r.pick(&[1, 1, 2])).map(|_| if r.pct(70) { r.below(2) } else { r.below(2 * pairs) }).collect();
                            Op::Cmd { verb: verb(r), files, abs: r.pct(40), style: r.below(4) as u8 }
                        }
                        9 | 10 => Op::File { file, abs: r.pct(40) },
                        _ => Op::Report,
                    });
                }
                sessions.push(ops);
            }
            plan.threads = vec![sessions];
        }
        "C08" => {
            let pieces = r.range(2, 6);
            let crlf = r.pct(20);
            for _ in 0..pieces {
                let n = *r.pick(&[0, 1, 1, 2, 4, 10]);
                let mut d = gen::doc(r, &c, n);
                d.crlf = crlf;
                push_doc(plan, d);
            }
            if r.pct(35) {
                let files: Vec<usize> = (0..pieces).map(|d| gen::add_file(r, plan, d)).collect();
                plan.threads = vec![vec![vec![Op::Cmd {
                    verb: verb(r),
                    files,
                    abs: r.pct(30),
                    style: r.below(4) as u8,
                }]]];
            } else {
                let mut ops = vec![];
                for d in 0..pieces {
                    let op = gen::load_op(r, plan, d);
                    ops.push(op);
                    for _ in 0..r.below(4) {
                        ops.push(quiet_op(r, &c));
                    }
                }
                ops.push(Op::Report);
                plan.threads = vec![vec![ops]];
            }
        }
        "C09" => {
            let mut budget = r.range(1, 10);
            let depth = *r.pick(&[1, 2, 3, 6]);
            let root = include_tree(r, plan, &c, depth, &mut budget);
            if r.pct(8) {
                // a long chain
                let mut d = root;
                let n = if r.pct(10) { r.range(26, 90) } else { r.range(5, 25) };
                for _ in 0..n {
                    let f = gen::add_file(r, plan, d);
                    d = push_doc(
                        plan,
                        Doc {
                            items: vec![Item::X(gen::xact(r, &c)), Item::I { file: f, abs: r.pct(30) }],
                            ..Default::default()
                        },
                    );
                }
                plan.threads = vec![vec![vec![Op::Text { doc: d }, Op::Report]]];
            } else if r.pct(25) {
                let f = gen::add_file(r, plan, root);
                plan.threads = vec![vec![vec![Op::Cmd {
                    verb: verb(r),
                    files: vec![f],
                    abs: r.pct(30),
                    style: r.below(4) as u8,
                }]]];
            } else {
                let op = gen::load_op(r, plan, root);
                plan.threads = vec![vec![vec![op, Op::Report]]];
            }
            if r.pct(15) {
                let inner: Vec<usize> = (0..plan.files.len())
                    .filter(|f| docs_included(plan).contains(&plan.files[*f].doc))
                    .collect();
                if !inner.is_empty() {
                    let f = *r.pick(&inner);
                    plan.files[f].kind = 1;
                }
            }
        }
        "C10" => {
            if c.huge.get() == 0 && r.pct(60) {
                let n = r.range(8, 60);
                let depth = r.range(1, 4);
                c.accounts = gen::accounts(r, n, depth);
                c.max_posts = 16;
            }
            let mut files = vec![];
            for _ in 0..r.range(1, 3) {
                let n = gen::count(r).min(40);
                let d = gen::doc(r, &c, n);
                let d = push_doc(plan, d);
                files.push(gen::add_file(r, plan, d));
            }
            let mut ops = vec![];
            for v in ["b", "accounts"] {
                ops.push(Op::Cmd {
                    verb: v.to_string(),
                    files: files.clone(),
                    abs: r.pct(30),
                    style: r.below(4) as u8,
                });
            }
            if r.pct(40) {
                ops.clear();
                ops.extend(files.iter().map(|f| Op::File { file: *f, abs: r.pct(30) }));
                ops.extend([Op::Report, Op::Tree]);
            }
            plan.threads = vec![vec![ops]];
            plan.env2 = Some(gen::env(r, true));
        }
        "C11" => {
            let nt = *r.pick(&[2, 2, 3, 4, 6]);
            plan.sched = gen::choices(r);
            plan.preempt = if r.pct(40) { r.range(3, 200) as u32 } else { 0 };
            let mut shared = vec![];
            for _ in 0..nt {
                let mut sessions = vec![];
                for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                    let cc = if r.pct(50) { c.clone() } else { gen::cfg(r) };
                    let mut ops = vec![];
                    if r.pct(60) {
                        // a command
                        let mut files = vec![];
                        for _ in 0..r.range(1, 2) {
                            if !shared.is_empty() && r.pct(25) {
                                files.push(*r.pick(&shared));
                                continue;
                            }
                            let mut budget = 2;
                            let depth = r.below(2);
                            let d = include_tree(r, plan, &cc, depth, &mut budget);
                            let f = gen::add_file(r, plan, d);
                            if r.pct(12) {
                                let bytes = rendered(plan, d).0;
                                plan.files[f].del.fail = Some(Fail {
                                    once: false,
                                    ..fail(r, bytes.len())
                                });
                            }
                            shared.push(f);
                            files.push(f);
                        }
                        ops.push(Op::Cmd {
                            verb: verb(r),
                            files,
                            abs: r.pct(30),
                            style: r.below(4) as u8,
                        });
                    } else {
                        for _ in 0..r.range(1, 3) {
                            let n = r.range(0, 5);
                            let mut d = gen::doc(r, &cc, n);
                            if r.pct(10) {
                                d.items.push(bad_lines(r));
                            }
                            let d = push_doc(plan, d);
                            ops.push(gen::load_op(r, plan, d));
                            if r.pct(40) {
                                ops.push(quiet_op(r, &cc));
                            }
                        }
                        ops.push(Op::Report);
                    }
                    sessions.push(ops);
                }
                plan.threads.push(sessions);
            }
        }
        "C12" | "C18" => {
            c.bare = false;
            c.p_cost = *r.pick(&[30, 50]);
            c.p_implied = *r.pick(&[0, 20, 40]);
            c.p_loose = *r.pick(&[0, 50]);
            c.p_zero = if prop == "C18" { *r.pick(&[0, 0, 10]) } else { 0 };
            c.p_price = if prop == "C12" { *r.pick(&[0, 20, 60]) } else { c.p_price };
            if r.pct(50) {
                // few pairs and moments, so they collide
                c.years = (2023, 2023);
                let n = r.range(2, 3);
                c.syms = gen::symbols(r, n);
            }
            let mut ops = vec![];
            for _ in 0..r.range(1, 4) {
                let n = gen::count(r).min(40).max(1);
                let mut d = gen::doc(r, &c, n);
                if prop == "C12" && r.pct(40) {
                    collide(r, &mut d);
                }
                if prop == "C12" && r.pct(12) {
                    let at = r.below(d.items.len() + 1);
                    d.items.insert(at, bad_priced(r, &c));
                }
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
                if prop == "C12" && r.pct(12) {
                    ops.push(failing_load(r, plan, &c));
                }
            }
            plan.threads = vec![vec![ops]];
        }
        "C13" => {
            c.bare = false;
            let n = *r.pick(&[2, 3, 5, 8, 12]);
            c.syms = gen::symbols(r, n);
            c.p_price = 0;
            c.p_cost = if r.pct(30) { 30 } else { 0 };
            c.int_digits = *r.pick(&[1, 2, 3]);
            c.frac_digits = *r.pick(&[0, 1, 2]);
            c.years = *r.pick(&[(2023, 2023), (2000, 2030), (1900, 2300)]);
            let mut ops = vec![];
            for _ in 0..r.range(1, 3) {
                let mut items = vec![];
                let chain_only = r.pct(15);
                for _ in 0..if chain_only { 0 } else { *r.pick(&[1, 3, 6, 15, 30]) } {
                    items.push(Item::P(gen::price(r, &c)));
                    if r.pct(10) {
                        items.push(Item::X(gen::xact(r, &c)));
                    }
                }
                if chain_only || r.pct(50) {
                    // a chain
                    let k = if r.pct(30) { c.syms.len() } else { r.range(2, c.syms.len()) };
                    for i in 1..k {
                        let mut p = gen::price(r, &c);
                        p.from = c.syms[i - 1].clone();
                        p.to = c.syms[i].clone();
                        if r.pct(30) {
                            std::mem::swap(&mut p.from, &mut p.to);
                        }
                        let at = r.below(items.len() + 1);
                        items.insert(at, Item::P(p));
                    }
                }
                let mut d = Doc {
                    items,
                    ..Default::default()
                };
                if r.pct(30) {
                    collide(r, &mut d);
                }
                let d = push_doc(plan, d);
                ops.push(gen::load_op(r, plan, d));
                for _ in 0..r.range(2, 8) {
                    if r.pct(40) {
                        let j = *r.pick(&[3_000_000_000i64, 86_400, 1, 60_000_000_000]);
                        let s = if r.pct(50) { j } else { -j.min(5_000_000_000) };
                        ops.push(Op::Jump(s));
                    }
                    let a = if r.pct(20) { 0 } else { r.below(c.syms.len()) };
                    let b = if a == 0 && r.pct(50) { c.syms.len() - 1 } else { (a + 1 + r.below(c.syms.len() - 1)) % c.syms.len() };
                    ops.push(Op::Rate {
                        from: c.syms[a].clone(),
                        to: c.syms[b].clone(),
                        moment: format!("{} {}", gen::date(r, (1900, 2300)), gen::time(r)),
                        oldest: format!("{} {}", gen::date(r, (1800, 2300)), gen::time(r)),
                    });
                }
            }
            plan.threads = vec![vec![ops]];
        }
        "C14" => {
            c.p_cost = *r.pick(&[0, 40]);
            c.inline = r.pct(30);
            let n = r.range(1, 4);
            let d = gen::doc(r, &c, n);
            let d = push_doc(plan, d);
            let (bytes, spans) = rendered(plan, d);
            let nums: Vec<(usize, bool, usize, usize)> = spans.xacts.iter().flat_map(|x| x.numbers.iter().copied()).collect();
            let Some(&(_, _, s, e)) = nums.get(r.below(nums.len().max(1))) else {
                return;
            };
            let junk = *r.pick(&[
                b'.', b',', b'-', b'x', b'O', b'l', b' ', b'_', b'e', b'+', b'\'', 0xC3, b'/', b'*', b'%', b'5', b'0', 0, 0x7f, b'\t',
            ]);
            let sp = match r.below(7) {
                // more digits than a quantity holds
                6 => {
                    let n = r.range(16, 34);
                    let mut with: Vec<u8> = (0..n).map(|_| b'1' + r.below(9) as u8).collect();
                    if r.pct(40) && !bytes[s..e].contains(&b'.') {
                        with.insert(0, b'.');
                        Splice { at: e, len: 0, with }
                    } else {
                        Splice { at: r.range(s + 1, e), len: 0, with }
                    }
                }
                0 => Splice { at: r.range(s, e - 1), len: 1, with: vec![junk] },
                1 => Splice { at: r.range(s, e), len: 0, with: vec![junk] },
                2 => Splice { at: r.range(s, e - 1), len: 1, with: vec![] },
                3 => Splice { at: s, len: e - s, with: vec![] },
                4 => Splice { at: r.range(s, e - 1), len: 1, with: vec![bytes[s] ^ (1 << r.below(7))] },
                _ => Splice { at: s, len: e - s, with: vec![junk, junk] },
            };
            if sp.with.contains(&b';') || sp.with.contains(&b'\n') || sp.with.contains(&b'\r') {
                return;
            }
            let edit = Edit { cut: None, splice: Some(sp), more: vec![] };
            let op = if r.pct(50) {
                Op::Read { doc: d, del: gen::delivery(r), edit }
            } else {
                let f = gen::add_file(r, plan, d);
                plan.files[f].edit = edit;
                Op::File { file: f, abs: false }
            };
            plan.threads = vec![vec![vec![op]]];
        }
        "C17" => {
            let mut files = vec![];
            for _ in 0..r.range(1, 2) {
                let n = r.range(0, 12);
                let d = gen::doc(r, &c, n);
                let d = push_doc(plan, d);
                files.push(gen::add_file(r, plan, d));
            }
            if r.pct(8) {
                let f = *r.pick(&files);
                plan.files[f].kind = r.range(1, 2) as u8;
            }
            for f in &mut plan.files {
                f.del = Delivery::default();
            }
            plan.threads = vec![vec![vec![Op::Cmd {
                verb: verb(r),
                files,
                abs: r.pct(50),
                style: r.below(2) as u8,
            }]]];
            for _ in 0..r.below(4) {
                let w = r.pct(60);
                let what = *r.pick(if w { &["short", "eintr", "err", "errs", "short"][..] } else { &["short", "eintr", "err", "short"][..] });
                plan.cli.push(CliFault {
                    call: if w { "w" } else { "r" }.to_string(),
                    nth: r.range(1, if w { 5 } else { 6 }) as u32,
                    what: what.to_string(),
                    arg: match what {
                        "short" => r.range(1, 60) as u32,
                        "eintr" => 0,
                        _ if w => *r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EDQUOT]) as u32,
                        _ => *r.pick(&[libc::EIO, libc::ESTALE, libc::EAGAIN]) as u32,
                    },
                });
            }
        }
        "C19" if plan.index % 400 == 99 => {
            // a long way down
            plan.env.stack = *r.pick(&[2048, 8192]);
            plan.env.alloc = 0;
            let levels = *r.pick(&[130, 200, 400, 800, 1500, 3000]);
            let leaf = gen::doc(r, &c, 1);
            let mut d = push_doc(plan, Doc { items: leaf.items.into_iter().take(2).collect(), ..Default::default() });
            for i in 0..levels {
                let file = plan.files.len();
                plan.files.push(File {
                    name: format!("c{}", i),
                    doc: d,
                    del: Delivery::default(),
                    kind: 0,
                    open_errno: 0,
                    world: 0,
                    edit: Edit::default(),
                });
                d = push_doc(plan, Doc { items: vec![Item::I { file, abs: false }], ..Default::default() });
            }
            plan.threads = vec![vec![vec![Op::Text { doc: d }]]];
        }
        "C19" => {
            let mut ops = vec![];
            for _ in 0..*r.pick(&[1, 1, 2]) {
                let n = gen::count(r);
                let mut budget = 2;
                let d = if r.pct(20) {
                    include_tree(r, plan, &c, 2, &mut budget)
                } else {
                    let d = gen::doc(r, &c, n);
                    push_doc(plan, d)
                };
                if r.pct(10) && !plan.files.is_empty() {
                    // an include that may lead back to itself
                    let file = r.below(plan.files.len());
                    let at_doc = if r.pct(50) { plan.files[file].doc } else { r.below(plan.docs.len()) };
                    let at = r.below(plan.docs[at_doc].items.len() + 1);
                    plan.docs[at_doc].items.insert(at, Item::I { file, abs: r.pct(30) });
                }
                let mut op = gen::load_op(r, plan, d);
                let bytes = rendered(plan, d).0;
                let storm = match r.below(4) {
                    0 => vec![],
                    1 => vec![r.range(1, 250) as u8],
                    2 => vec![0, 0, 0, 100],
                    _ => (0..r.range(2, 20)).map(|_| r.below(6) as u8).collect(),
                };
                // a storm on every byte of a long text takes minutes to simulate
                let storm = if storm.iter().max().map_or(0, |m| *m as usize) * bytes.len() > 500_000 { vec![2] } else { storm };
                let mut f = fail(r, bytes.len());
                f.once = false;
                let with_fail = r.pct(40);
                match &mut op {
                    Op::Read { del, .. } => {
                        del.eintr = storm;
                        del.fail = with_fail.then_some(f);
                    }
                    Op::File { file, .. } => {
                        let del = &mut plan.files[*file].del;
                        del.eintr = storm;
                        del.fail = with_fail.then_some(f);
                    }
                    _ => {}
                }
                ops.push(op);
            }
            plan.threads = vec![vec![ops]];
        }
        "C22" | "C23" => {
            let small = prop == "C23";
            let mut ops = vec![];
            let mut sessions = vec![];
            for _ in 0..r.range(1, if small { 4 } else { 6 }) {
                match r.below(10) {
                    0..=3 => {
                        let deep = r.pct(15);
                        let mut budget = if deep { r.range(4, 8) } else { r.below(4) };
                        let depth = if deep { r.range(3, 7) } else { r.below(3) };
                        let d = include_tree(r, plan, &c, depth, &mut budget);
                        let f = gen::add_file(r, plan, d);
                        ops.push(if r.pct(60) {
                            Op::Cmd { verb: verb(r), files: vec![f], abs: r.pct(30), style: r.below(4) as u8 }
                        } else {
                            Op::File { file: f, abs: r.pct(30) }
                        });
                    }
                    4..=6 => ops.push(failing_load(r, plan, &c)),
                    7 => {
                        let n = if small { r.range(1, 6) } else { gen::count(r) };
                        let d = gen::doc(r, &c, n);
                        let d = push_doc(plan, d);
                        ops.push(gen::load_op(r, plan, d));
                    }
                    8 => ops.push(Op::Report),
                    _ => ops.push(quiet_op(r, &c)),
                }
                if r.pct(25) {
                    sessions.push(std::mem::take(&mut ops));
                }
            }
            ops.push(Op::Report);
            sessions.push(ops);
            sessions.retain(|s| !s.is_empty());
            // some of the files cannot be read
            for f in 0..plan.files.len() {
                if r.pct(12) {
                    let size = rendered(plan, plan.files[f].doc).0.len();
                    match r.below(5) {
                        0 => {
                            plan.files[f].kind = r.range(1, 4) as u8;
                            plan.files[f].open_errno = r.below(14) as u8;
                        }
                        1 => {
                            let bytes = rendered(plan, plan.files[f].doc).0;
                            plan.files[f].edit = spoil(r, &bytes);
                        }
                        _ => plan.files[f].del.fail = Some(Fail { once: false, ..fail(r, size) }),
                    }
                }
            }
            plan.threads = vec![sessions];
        }
        "C24" => {
            // what a thread has by default
            plan.env.stack = if r.pct(50) { 2048 } else { 0 };
            c.int_digits = *r.pick(&[1, 2, 3]);
            c.frac_digits = *r.pick(&[0, 1, 2]);
            c.p_long = 0;
            c.max_posts = c.max_posts.min(9);
            let mut ops = vec![];
            for _ in 0..r.range(1, 5) {
                let n = r.range(0, 6);
                let d = gen::doc(r, &c, n);
                let d = push_doc(plan, d);
                if r.pct(35) {
                    ops.push(gen::load_op(r, plan, d));
                } else {
                    let edit = wreck(r, &rendered(plan, d).0);
                    if r.pct(60) {
                        ops.push(Op::Read { doc: d, del: gen::delivery(r), edit });
                    } else {
                        let f = gen::add_file(r, plan, d);
                        plan.files[f].edit = edit;
                        ops.push(Op::File { file: f, abs: r.pct(30) });
                    }
                }
                if r.pct(40) {
                    ops.push(Op::Report);
                }
            }
            ops.push(Op::Report);
            plan.threads = vec![vec![ops]];
        }
        _ => panic!("unknown property {}", prop),
    }
    c.p_zero = 0;
}

/// Makes some price directives hit the same pair and moment, in any order of dates.
fn collide(r: &mut Rng, d: &mut Doc) {
    let idx: Vec<usize> = (0..d.items.len()).filter(|i| matches!(d.items[*i], Item::P(_))).collect();
    if idx.len() < 2 {
        return;
    }
    for _ in 0..r.range(1, 4) {
        let (a, b) = (*r.pick(&idx), *r.pick(&idx));
        let Item::P(pa) = d.items[a].clone() else { continue };
        if let Item::P(pb) = &mut d.items[b] {
            pb.from = pa.from;
            pb.to = pa.to;
            match r.below(3) {
                0 => {
                    pb.date = pa.date;
                    pb.time = pa.time;
                }
                1 => pb.date = pa.date,
                _ => {}
            }
        }
    }
}

fn docs_included(plan: &Plan) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for d in &plan.docs {
        for i in &d.items {
            if let Item::I { file, .. } = i {
                if let Some(f) = plan.files.get(*file) {
                    s.insert(f.doc);
                }
            }
        }
    }
    s
}

/// Document `to` is included, directly or not, from document `from`.
fn reaches(plan: &Plan, from: usize, to: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(d) = todo.pop() {
        for i in &plan.docs[d].items {
            let Item::I { file, .. } = i else { continue };
            let Some(f) = plan.files.get(*file) else { continue };
            if f.doc == to {
                return true;
            }
            if seen.insert(f.doc) {
                todo.push(f.doc);
            }
        }
    }
    false
}

/// No include cycle, nesting at most 100 and a bounded text once everything is put in place.
fn includes_ok(plan: &Plan) -> bool {
    // None: not seen, Some(None): being visited, Some(Some((depth, size))): done
    type State = Vec<Option<Option<(usize, usize)>>>;
    fn go(plan: &Plan, doc: usize, st: &mut State) -> Option<(usize, usize)> {
        match st.get(doc)? {
            Some(x) => return *x,
            None => {}
        }
        st[doc] = Some(None);
        let (mut depth, mut size) = (0, 0usize);
        for i in &plan.docs[doc].items {
            size += 1;
            if let Item::I { file, .. } = i {
                let (d, n) = go(plan, plan.files.get(*file)?.doc, st)?;
                depth = depth.max(d + 1);
                size += n;
            }
            if depth > DEEP || size > 80_000 {
                return None;
            }
        }
        st[doc] = Some(Some((depth, size)));
        Some((depth, size))
    }
    let mut st: State = vec![None; plan.docs.len()];
    (0..plan.docs.len()).all(|d| go(plan, d, &mut st).is_some())
}

/// Nothing but files that include the next one, more than a hundred of them.
fn bottomless(plan: &Plan) -> bool {
    plan.env.stack > 0 && plan.docs.len() <= 4000 && plan.docs.iter().all(|d| d.items.len() <= 3) && (0..plan.docs.len()).all(|d| !cyclic(plan, d)) && ops(plan).count() == 1
}

/// Following the includes of this document leads round in circles.
fn cyclic(plan: &Plan, doc: usize) -> bool {
    fn go(plan: &Plan, doc: usize, st: &mut Vec<u8>) -> bool {
        match st[doc] {
            1 => return true,
            2 => return false,
            _ => {}
        }
        st[doc] = 1;
        for i in &plan.docs[doc].items {
            if let Item::I { file, .. } = i {
                if plan.files.get(*file).map_or(false, |f| go(plan, f.doc, st)) {
                    return true;
                }
            }
        }
        st[doc] = 2;
        false
    }
    go(plan, doc, &mut vec![0; plan.docs.len()])
}

/// The same text but for the digits of the amounts: no byte more or less.
fn other_digits(mut d: Doc) -> Doc {
    for item in &mut d.items {
        if let Item::X(x) = item {
            for a in x.posts.iter_mut().filter_map(|p| p.amt.as_mut()) {
                a.n.int = a.n.int.chars().map(|c| if c == '9' { '1' } else { (c as u8 + 1) as char }).collect();
            }
        }
    }
    d
}

/// Files come in pairs of one name, one in each directory, and include only files of later pairs.
fn paired(plan: &Plan) -> bool {
    let f = &plan.files;
    if f.len() % 2 != 0 || !f.chunks(2).all(|p| p[0].name == p[1].name && p[0].world == 0 && p[1].world == 1) {
        return false;
    }
    let mut used: Vec<(usize, usize)> = f.iter().enumerate().map(|(i, f)| (i / 2, f.doc)).collect();
    for op in ops(plan) {
        if let Op::Rewrite { file, doc, .. } = op {
            used.push((file / 2, *doc));
        }
    }
    used.iter().all(|(pair, doc)| {
        plan.docs[*doc].items.iter().all(|i| match i {
            Item::I { file, .. } => *file < f.len() && file / 2 > *pair,
            _ => true,
        })
    })
}

/// Everything in the document can be said by calls.
fn callable(d: &Doc) -> bool {
    d.items.iter().all(|i| match i {
        Item::X(x) => {
            x.note.is_none()
                && x.posts.iter().all(|p| p.inline.is_none() && p.lot.is_none() && p.cost.as_ref().map_or(true, |c| !c.per_unit))
        }
        Item::P(_) | Item::C(_) | Item::B => true,
        _ => false,
    })
}

fn ops(plan: &Plan) -> impl Iterator<Item = &Op> {
    plan.threads.iter().flatten().flatten()
}

/// The plan is one the property speaks about (also used while minimising).
pub fn valid(plan: &Plan) -> bool {
    if plan.threads.is_empty() || plan.threads.iter().any(|t| t.is_empty()) {
        return false;
    }
    let nd = plan.docs.len();
    if plan.files.iter().any(|f| f.doc >= nd || f.name.is_empty()) {
        return false;
    }
    let names: BTreeSet<(u8, &String)> = plan.files.iter().map(|f| (f.world, &f.name)).collect();
    if names.len() != plan.files.len() {
        return false;
    }
    for op in ops(plan) {
        let ok = match op {
            Op::Text { doc } | Op::Read { doc, .. } => *doc < nd,
            Op::File { file, .. } => *file < plan.files.len(),
            Op::Cmd { files, verb, .. } => {
                !files.is_empty()
                    && files.iter().all(|f| *f < plan.files.len())
                    && ["b", "bal", "balance", "accounts"].contains(&verb.as_str())
            }
            Op::Api { doc, .. } => *doc < nd && plan.prop == "C25" && callable(&plan.docs[*doc]),
            Op::Rewrite { file, doc, .. } => *file < plan.files.len() && *doc < nd && plan.prop == "C26",
            Op::Remove { file } => *file < plan.files.len() && plan.prop == "C26",
            Op::Find { name } => !name.is_empty(),
            Op::Rate { from, to, .. } => from != to,
            _ => true,
        };
        if !ok {
            return false;
        }
    }
    if plan.prop == "C26" && !paired(plan) {
        return false;
    }
    let allow_reject = plan.prop == "C05";
    let allow_bad = matches!(plan.prop.as_str(), "C03" | "C06" | "C07" | "C11" | "C12" | "C15" | "C16" | "C22" | "C23" | "C24" | "C25");
    if !includes_ok(plan) && !(plan.prop == "C19" && (plan.docs.len() < 12 && (0..nd).any(|d| cyclic(plan, d)) || bottomless(plan))) {
        return false;
    }
    for d in &plan.docs {
        for item in &d.items {
            let ok = match item {
                Item::X(x) => {
                    if x.date.len() != 10 || x.posts.iter().any(|p| p.acct.iter().any(|s| s.is_empty())) {
                        return false;
                    }
                    match eval(x) {
                        Class::Ok(m) => !m.odd_price || !matches!(plan.prop.as_str(), "C12" | "C13" | "C25"),
                        Class::Reject => allow_reject,
                        Class::Unspec => false,
                    }
                }
                Item::Bad(_) => allow_bad,
                Item::C(t) => t.starts_with(|c| ";#*|".contains(c)),
                Item::P(p) => {
                    p.from != p.to && p.q.dec().map_or(false, |q| !q.is_zero() && !q.neg_sign()) && p.date.len() == 10
                }
                _ => true,
            };
            if !ok {
                return false;
            }
        }
    }
    // every session's sums stay exact
    for s in plan.threads.iter().flatten() {
        let mut m = Model::default();
        for op in s {
            match op {
                Op::Text { doc } | Op::Read { doc, .. } => {
                    let _ = m.load(plan, *doc, 0);
                }
                Op::File { file, .. } => {
                    let _ = m.load(plan, plan.files[*file].doc, 0);
                }
                Op::Cmd { files, .. } => {
                    for f in files {
                        let _ = m.load(plan, plan.files[*f].doc, 0);
                    }
                }
                _ => {}
            }
        }
        if !m.sums_fit() {
            return false;
        }
    }
    match plan.prop.as_str() {
        "C02" => {
            // exactly one source is unreadable, and it is reached
            let bad: Vec<usize> = (0..plan.files.len()).filter(|f| unreadable(plan, *f)).collect();
            let broken = ops(plan).filter(|o| broken_reader(o)).count();
            bad.len() + broken == 1
                && ops(plan).all(|o| matches!(o, Op::Cmd { .. } | Op::File { .. } | Op::Read { .. }))
                && ops(plan).any(|o| match o {
                    Op::Read { doc, .. } => broken == 1 && broken_reader(o) || broken == 0 && reaches_file(plan, *doc, bad[0]),
                    _ if broken == 1 => false,
                    Op::Cmd { files, .. } => files
                        .iter()
                        .any(|f| *f == bad[0] || reaches_file(plan, plan.files[*f].doc, bad[0])),
                    Op::File { file, .. } => *file == bad[0] || reaches_file(plan, plan.files[*file].doc, bad[0]),
                    _ => false,
                })
        }
        "C04" => ops(plan).filter(|o| cut_of(plan, o).is_some()).count() == 1 && cut_of(plan, ops(plan).last().unwrap()).is_some() && plan.docs.iter().all(|d| d.items.iter().all(|i| !matches!(i, Item::I { .. }))),
        "C08" => plan.threads.len() == 1 && plan.threads[0].len() == 1,
        "C24" => ops(plan).all(|o| match edit_of(plan, o) {
            Some((doc, e)) => {
                let mut bytes = rendered(plan, doc).0;
                apply_edit(&mut bytes, e);
                // nothing outside the scratch directory is read
                short_numbers(&bytes) && !bytes.windows(9).any(|w| &w[..7] == b"include" && w[8] == b'/')
            }
            None => true,
        }),
        "C10" => plan.env2.is_some(),
        "C14" => c14_target(plan).is_some(),
        _ => true,
    }
}

fn reaches_file(plan: &Plan, from: usize, file: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(d) = todo.pop() {
        for i in &plan.docs[d].items {
            let Item::I { file: f, .. } = i else { continue };
            if *f == file {
                return true;
            }
            if let Some(x) = plan.files.get(*f) {
                if seen.insert(x.doc) {
                    todo.push(x.doc);
                }
            }
        }
    }
    false
}

/// A reader that fails or gives bytes that are no text.
fn broken_reader(op: &Op) -> bool {
    matches!(op, Op::Read { del, edit, .. } if del.fail.is_some() || edit.splice.as_ref().map_or(false, |s| s.with.iter().any(|b| [0xFF, 0xC0, 0xFE, 0xF5].contains(b))))
}

fn unreadable(plan: &Plan, f: usize) -> bool {
    let file = &plan.files[f];
    if file.kind != 0 || file.del.fail.is_some() {
        return true;
    }
    let mut bytes = rendered(plan, file.doc).0;
    apply_edit(&mut bytes, &file.edit);
    String::from_utf8(bytes).is_err()
}

fn edit_of<'a>(plan: &'a Plan, op: &'a Op) -> Option<(usize, &'a Edit)> {
    match op {
        Op::Read { doc, edit, .. } => Some((*doc, edit)),
        Op::File { file, .. } => Some((plan.files[*file].doc, &plan.files[*file].edit)),
        _ => None,
    }
}

fn cut_of(plan: &Plan, op: &Op) -> Option<(usize, usize)> {
    let (doc, e) = edit_of(plan, op)?;
    e.cut.map(|c| (doc, c))
}

// ------------------------------------------------------------------ execution and oracles

/// All symbols and accounts a plan can mention.
fn all_syms(plan: &Plan) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for d in &plan.docs {
        for i in &d.items {
            match i {
                Item::X(x) => {
                    for p in &x.posts {
                        if let Some(a) = &p.amt {
                            s.insert(a.sym.clone());
                        }
                        if let Some(c) = &p.cost {
                            s.insert(c.amt.sym.clone());
                        }
                        if let Some(Lot { price: Some(a), .. }) = &p.lot {
                            s.insert(a.sym.clone());
                        }
                    }
                }
                Item::P(p) => {
                    s.insert(p.from.clone());
                    s.insert(p.to.clone());
                }
                _ => {}
            }
        }
    }
    s.remove("");
    s
}

pub fn check(dir: &Path, plan: &Plan) -> Verdict {
    let mut v = Verdict {
        bad: None,
        marks: BTreeMap::new(),
        trivial: false,
        state: 0,
    };
    let bad = match plan.prop.as_str() {
        "C01" => c01(dir, plan, &mut v),
        "C02" => c02(dir, plan, &mut v),
        "C03" => c03(dir, plan, &mut v),
        "C04" => c04(dir, plan, &mut v),
        "C05" => c05(dir, plan, &mut v),
        "C06" => c06(dir, plan, &mut v),
        "C07" => c07(dir, plan, &mut v),
        "C08" => c08(dir, plan, &mut v),
        "C09" => c09(dir, plan, &mut v),
        "C10" => c10(dir, plan, &mut v),
        "C11" => c11(dir, plan, &mut v),
        "C12" => c12(dir, plan, &mut v),
        "C13" => c13(dir, plan, &mut v),
        "C14" => c14(dir, plan, &mut v),
        "C15" => c15(dir, plan, &mut v),
        "C16" => c16(dir, plan, &mut v),
        "C17" => crate::cli::check(dir, plan, &mut v),
        "C18" => c18(dir, plan, &mut v),
        "C19" => c19(dir, plan, &mut v),
        "C22" => c22(dir, plan, &mut v),
        "C23" => c23(dir, plan, &mut v),
        "C24" => c24(dir, plan, &mut v),
        "C25" => c25(dir, plan, &mut v),
        "C26" => c26(dir, plan, &mut v),
        _ => panic!("unknown property"),
    };
    v.bad = bad;
    v
}

fn arm(dir: &Path, plan: &Plan, env: &Env, look: Look, v: &mut Verdict) -> Result<ArmOut, String> {
    let syms = all_syms(plan);
    let out = run_arm(dir, plan, env, &syms, look)?;
    for s in out.threads.iter().flatten() {
        v.state = crate::rng::hash_bytes(v.state, format!("{:?}", s.last.xacts).as_bytes());
        v.state = crate::rng::hash_bytes(v.state, format!("{:?}", s.last.accounts).as_bytes());
        for e in &s.evs {
            let t = match e {
                // messages can hold scratch paths
                Ev::Load(r) => format!("load {}", r.is_ok()),
                Ev::Cmd(Err(_)) => "command failed".to_string(),
                Ev::Find(n, Err(_)) => format!("find {} failed", n),
                Ev::Rate(a, b, Err(_)) => format!("rate {} {} failed", a, b),
                e => format!("{:?}", e),
            };
            v.state = crate::rng::hash_bytes(v.state, t.as_bytes());
        }
        mark(v, "transactions", s.last.xacts.len() as u64);
        for e in &s.evs {
            match e {
                Ev::Load(Ok(())) => mark(v, "loads_ok", 1),
                Ev::Load(Err(_)) => mark(v, "loads_failed", 1),
                Ev::Cmd(Ok(_)) => mark(v, "commands_ok", 1),
                Ev::Cmd(Err(_)) => mark(v, "commands_failed", 1),
                Ev::Rate(_, _, Ok(Some(_))) => mark(v, "rates_found", 1),
                Ev::Rate(_, _, Ok(None)) => mark(v, "rates_none", 1),
                Ev::Find(_, Ok(Some(_))) => mark(v, "accounts_found", 1),
                Ev::Find(_, Ok(None)) => mark(v, "accounts_not_found", 1),
                Ev::Report(..) => mark(v, "reports", 1),
                _ => {}
            }
        }
    }
    Ok(out)
}

macro_rules! arm {
    ($dir:expr, $plan:expr, $env:expr, $look:expr, $v:expr) => {
        match arm($dir, $plan, $env, $look, $v) {
            Ok(o) => o,
            Err(e) => return Some(format!("observation failed: {}", e)),
        }
    };
}

/// Feeds the model along with the operations of a session of well-formed loads. `None` for an operation
/// that is not a load; the returned text is a violation.
fn follow(plan: &Plan, m: &mut Model, op: &Op, ev: &Ev) -> Result<Option<()>, String> {
    let doc = match op {
        Op::Text { doc } | Op::Read { doc, .. } => *doc,
        Op::File { file, .. } => plan.files[*file].doc,
        _ => return Ok(None),
    };
    let want = m.load(plan, doc, 0);
    match (want, ev) {
        (Ok(()), Ev::Load(Ok(()))) => Ok(Some(())),
        (Ok(()), Ev::Load(Err(e))) => Err(format!("load failed: well-formed journal refused: {}", clip(e))),
        (Err(s), _) => Err(format!("harness: {:?}", s)),
        _ => Err("harness: event".to_string()),
    }
}

enum Step {
    Other,
    Whole,
    Failed,
    /// malformed text was accepted: nothing more can be said
    Unsure,
}

/// Like `follow`, for loads that may be planned to fail.
fn follow_any(plan: &Plan, docs: &[(Vec<u8>, Spans)], m: &mut Model, op: &Op, ev: &Ev, v: &mut Verdict) -> Result<Step, String> {
    let (doc, del) = match op {
        Op::Text { doc } => (*doc, None),
        Op::Read { doc, del, .. } => (*doc, Some(del)),
        Op::File { file, .. } => (plan.files[*file].doc, Some(&plan.files[*file].del)),
        _ => return Ok(Step::Other),
    };
    let limit = del.and_then(|d| d.fail.as_ref()).map(|f| f.at.min(docs[doc].0.len()));
    let whole = load_prefix(plan, docs, m, doc, limit, 0);
    match (whole, ev) {
        (true, Ev::Load(Ok(()))) => Ok(Step::Whole),
        (true, Ev::Load(Err(e))) => Err(format!("load failed: well-formed journal refused: {}", clip(e))),
        (false, Ev::Load(Err(_))) => {
            mark(v, "failures_placed", 1);
            Ok(Step::Failed)
        }
        (false, Ev::Load(Ok(()))) => Ok(Step::Unsure),
        _ => Err("harness: event".to_string()),
    }
}

/// A transaction with prices that cannot be completed.
fn bad_priced(r: &mut Rng, c: &gen::Cfg) -> Item {
    let mut syms: Vec<String> = c.syms.iter().filter(|s| s.bytes().all(|b| b.is_ascii_uppercase()) && !s.is_empty()).cloned().collect();
    for s in ["QA", "QB", "QC"] {
        syms.push(s.to_string());
    }
    let mut t = format!("{} Broken\n", gen::date(r, c.years));
    for _ in 0..r.range(1, 4) {
        let a = r.pick(&syms).clone();
        let b = r.pick(&syms).clone();
        if a == b {
            continue;
        }
        let how = *r.pick(&["@", "@@"]);
        t.push_str(&format!("    P:Q  {} {} {} {} {}\n", r.range(1, 99), a, how, r.range(1, 99), b));
    }
    t.push_str(*r.pick(&[
        "    P:R  3 QXA\n    P:S  4 QXB\n    P:T\n",
        "    P:R  3 QXA @@ 4 QXB\n    P:S  4 QXA @ 5 QXA\n",
        "    P:R  1 QXA @ 7 QXC\n    P:S\n    P:T\n",
        "    P:R  1 QXA @ 7 QXC\n    P:S  1..2 QXA\n    P:T\n",
        "    P:R  3 QXA @@ 4 QXB\n    P:S  4 QXA @ 5\n",
        "    P:R  3 QXA @@ 4 QXB\n    P:S  4 @ 5 QXB\n",
    ]));
    Item::Bad(t)
}

/// A load planned to fail part-way.
fn failing_load(r: &mut Rng, plan: &mut Plan, c: &gen::Cfg) -> Op {
    let n = r.range(1, 6);
    let mut d = gen::doc(r, c, n);
    if r.pct(40) {
        let at = r.below(d.items.len() + 1);
        let bad = bad_lines(r);
        d.items.insert(at, bad);
        let d = push_doc(plan, d);
        return gen::load_op(r, plan, d);
    }
    let d = push_doc(plan, d);
    let size = rendered(plan, d).0.len();
    let mut del = gen::delivery(r);
    del.fail = Some(fail(r, size));
    if r.pct(50) {
        Op::Read { doc: d, del, edit: Edit::default() }
    } else {
        let f = gen::add_file(r, plan, d);
        plan.files[f].del = del;
        Op::File { file: f, abs: r.pct(30) }
    }
}

fn c01(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        if let Err(e) = follow(plan, &mut m, op, ev) {
            return Some(e);
        }
    }
    v.trivial = m.xacts.is_empty();
    class("loaded differs", cmp_xacts(&m.xacts, &s.last.xacts))
}

fn c02(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let bad = (0..plan.files.len()).find(|f| unreadable(plan, *f)).unwrap_or(usize::MAX);
    let kind = match plan.files.get(bad).map(|file| (file.kind, &file.del.fail)) {
        Some((1, _)) => "missing_file",
        Some((2, _)) => "directory",
        Some((3, _)) => "open_failure",
        Some((4, _)) => "open_and_stat_failure",
        Some((_, Some(_))) => "read_failure",
        Some(_) => "invalid_bytes",
        None => "broken_reader",
    };
    let name = plan.files.get(bad).map_or("the reader", |f| &f.name);
    mark(v, &format!("fault_{}", kind), 1);
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        let hit = match op {
            Op::Cmd { files, .. } => files
                .iter()
                .any(|f| *f == bad || reaches_file(plan, plan.files[*f].doc, bad)),
            Op::File { file, .. } => *file == bad || reaches_file(plan, plan.files[*file].doc, bad),
            Op::Read { doc, .. } => broken_reader(op) || reaches_file(plan, *doc, bad),
            _ => false,
        };
        if !hit {
            continue;
        }
        match ev {
            Ev::Cmd(Ok(lines)) => {
                return Some(format!(
                    "report from unreadable source: {} of {} gave a report of {} lines",
                    kind,
                    name,
                    lines.len()
                ))
            }
            Ev::Load(Ok(())) => return Some(format!("load of unreadable source succeeded: {} of {}", kind, name)),
            _ => {}
        }
        // after a one-time error the source can be read again
        break;
    }
    None
}

/// What a load that stops at the first failure leaves behind. Returns false when it stopped.
/// `limit`: bytes delivered of this document before its failure.
fn load_prefix(plan: &Plan, docs: &[(Vec<u8>, Spans)], m: &mut Model, doc: usize, limit: Option<usize>, depth: usize) -> bool {
    let (bytes, spans) = &docs[doc];
    let d = &plan.docs[doc];
    let mut xi = 0;
    for (i, item) in d.items.iter().enumerate() {
        let end = spans.items.get(i + 1).copied().unwrap_or(bytes.len());
        let delivered = limit.map_or(true, |l| end <= l && end > 0 && bytes[end - 1] == b'\n');
        match item {
            Item::X(x) => {
                let sp = &spans.xacts[xi];
                xi += 1;
                let complete = match limit {
                    None => true,
                    Some(l) => sp.done.map_or(false, |d| d <= l),
                };
                if !complete || m.add_xact(x).is_err() {
                    return false;
                }
            }
            Item::I { file, .. } => {
                if !delivered || depth > DEEP {
                    return false;
                }
                let f = &plan.files[*file];
                if f.kind != 0 {
                    return false;
                }
                let limit = f.del.fail.as_ref().map(|x| x.at.min(docs[f.doc].0.len()));
                if !load_prefix(plan, docs, m, f.doc, limit, depth + 1) {
                    return false;
                }
            }
            Item::Bad(_) => return false,
            other => {
                if !delivered {
                    return false;
                }
                let _ = m.add_item(plan, other, 0);
            }
        }
    }
    limit.is_none()
}

fn c03(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let look = Look {
        every_op: true,
        ..Default::default()
    };
    let out = arm!(dir, plan, &plan.env, look, v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        let (doc, del, edit) = match op {
            Op::Text { doc } => (*doc, None, None),
            Op::Read { doc, del, edit } => (*doc, Some(del), Some(edit)),
            Op::File { file, .. } => (plan.files[*file].doc, Some(&plan.files[*file].del), None),
            Op::Report => {
                if let Ev::Report(lines, _) = ev {
                    // balances of what is there
                    let mut seen = m.clone();
                    for a in &s.snaps[i].accounts {
                        if !a.path.is_empty() {
                            seen.accounts.insert(a.path.clone());
                        }
                    }
                    if let Some(b) = class("torn balance", cmp_balance(&seen, lines)) {
                        return Some(b);
                    }
                }
                continue;
            }
            _ => continue,
        };
        let mut limit = del.and_then(|d| d.fail.as_ref()).map(|f| f.at.min(out.stage_docs[doc].0.len()));
        if let Some(Edit { splice: Some(sp), .. }) = edit {
            // invalid byte: the line it is in cannot be read
            let bytes = &out.stage_docs[doc].0;
            let at = sp.at.min(bytes.len());
            let line = bytes[..at].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
            limit = Some(limit.unwrap_or(usize::MAX).min(line));
        }
        let mut after = m.clone();
        let whole = load_prefix(plan, &out.stage_docs, &mut after, doc, limit, 0);
        let failed = matches!(ev, Ev::Load(Err(_)));
        if whole {
            if failed {
                return Some(format!("load failed: well-formed journal refused after operation {}", i));
            }
        } else if !failed {
            // reported as success: another property's business; nothing more can be said about this run
            v.trivial = true;
            return None;
        } else {
            mark(v, "failures_placed", 1);
            if after.xacts.len() > m.xacts.len() {
                mark(v, "failures_with_survivors", 1);
            }
        }
        m = after;
        let snap = &s.snaps[i];
        if let Some(b) = class("torn transactions", cmp_xacts(&m.xacts, &snap.xacts)) {
            return Some(b);
        }
        if let Some(b) = class("torn balance", cmp_accounts(&m, &snap.accounts, false)) {
            return Some(b);
        }
    }
    None
}

/// The accounts hold exactly the postings of the transactions that are there.
fn conserved(s: &Snap) -> Bad {
    let mut want: BTreeMap<String, (usize, BTreeMap<String, Dec>)> = BTreeMap::new();
    for p in s.xacts.iter().flat_map(|x| &x.posts) {
        let e = want.entry(p.account.clone()).or_default();
        e.0 += 1;
        if let Some(RMoney(d, sym)) = &p.amount {
            let t = e.1.entry(sym.clone()).or_insert(Dec::ZERO);
            *t = t.add(*d)?;
        }
    }
    for a in &s.accounts {
        let (n, sums) = want.remove(&a.path.join(":")).unwrap_or_default();
        if a.posts != n {
            return Some(format!("account {:?} holds {} postings, the transactions {}", a.path, a.posts, n));
        }
        if let Some(b) = cmp_amounts(Some(&sums), &a.own) {
            return Some(format!("account {:?}: {}", a.path, b));
        }
    }
    want.keys().next().map(|k| format!("no account for the postings in {:?}", k))
}

fn c04(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        let Some((doc, cut)) = cut_of(plan, op) else {
            if let Err(e) = follow(plan, &mut m, op, ev) {
                return Some(e);
            }
            continue;
        };
        let (bytes, spans) = &out.stage_docs[doc];
        let cut = cut.min(bytes.len());
        let xs: Vec<&Xact> = plan.docs[doc]
            .items
            .iter()
            .filter_map(|i| if let Item::X(x) = i { Some(x) } else { None })
            .collect();
        let mut next = None;
        for (k, (x, sp)) in xs.iter().zip(&spans.xacts).enumerate() {
            if sp.done.map_or(false, |d| d <= cut) {
                let _ = m.add_xact(x);
            } else {
                next = Some(k);
                break;
            }
        }
        let real = &s.last.xacts;
        let n = m.xacts.len();
        mark(v, "complete_before_cut", n as u64);
        if real.len() < n {
            return Some(format!("complete transactions lost: {} instead of {} before a cut at {}", real.len(), n, cut));
        }
        if let Some(b) = cmp_xacts(&m.xacts, &real[..n]) {
            return Some(format!("complete transactions changed: {}", b));
        }
        if real.len() > n + 1 {
            return Some(format!("transactions from nowhere: {} instead of at most {}", real.len(), n + 1));
        }
        if real.len() == n + 1 {
            mark(v, "partial_kept", 1);
            let Some(k) = next else {
                return Some("transactions from nowhere: one more than the file holds".to_string());
            };
            let sp = &spans.xacts[k];
            let begun = sp.posts.iter().filter(|p| **p < cut).count();
            let posts = &real[n].posts;
            if sp.start >= cut || posts.len() > begun {
                return Some(format!("postings from nowhere: {} postings, {} begin before the cut", posts.len(), begun));
            }
            for (p, w) in posts.iter().zip(&xs[k].posts) {
                if !w.acct.join(":").starts_with(&p.account) {
                    return Some(format!("postings from nowhere: account {:?} where {:?} was written", p.account, w.acct));
                }
            }
        }
    }
    class("balances disturbed", conserved(&s.last))
}

fn c05(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look { every_op: true, ..Default::default() }, v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        let doc = match op {
            Op::Text { doc } | Op::Read { doc, .. } => *doc,
            Op::File { file, .. } => plan.files[*file].doc,
            _ => continue,
        };
        let want = m.load(plan, doc, 0);
        match (&want, ev) {
            (Err(Stop::Reject), Ev::Load(Ok(()))) => {
                return Some("guess: a transaction whose missing amount cannot be determined was accepted".to_string())
            }
            (Err(Stop::Reject), _) => mark(v, "rejected", 1),
            (Ok(()), Ev::Load(Err(e))) => return Some(format!("load failed: well-formed journal refused: {}", clip(e))),
            _ => {}
        }
        let real = &s.snaps[i].xacts;
        if real.len() != m.xacts.len() {
            return Some(format!("transactions: {} instead of {}", real.len(), m.xacts.len()));
        }
        for (k, (mx, rx)) in m.xacts.iter().zip(real).enumerate() {
            if mx.posts.len() != rx.posts.len() {
                return Some(format!("transaction {}: {} postings instead of {}", k, rx.posts.len(), mx.posts.len()));
            }
            for (pi, (mp, rp)) in mx.posts.iter().zip(&rx.posts).enumerate() {
                if let Some(b) = cmp_money(&mp.amount, &rp.amount) {
                    let what = if mx.inferred == Some(pi) { "inferred amount" } else { "written amount altered" };
                    return Some(format!("{}: transaction {} posting {}: {}", what, k, pi, b));
                }
            }
            if mx.inferred.is_some() {
                mark(v, "inferred", 1);
                // sums to zero, taking costs
                let mut sum = Dec::ZERO;
                for rp in &rx.posts {
                    let Some(a) = rp.cost.as_ref().or(rp.amount.as_ref()) else { continue };
                    sum = sum.add(a.0).unwrap_or(Dec::ONE);
                }
                if !sum.is_zero() {
                    return Some(format!("does not sum to zero: transaction {}: {}", k, sum.to_string()));
                }
            }
        }
    }
    v.trivial = m.xacts.iter().all(|x| x.inferred.is_none()) && v.marks.get("rejected").is_none();
    None
}

fn c06(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look { every_op: true, ..Default::default() }, v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    let mut loose = false;
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        match follow_any(plan, &out.stage_docs, &mut m, op, ev, v) {
            Err(e) => return Some(e),
            Ok(Step::Unsure) => return None,
            Ok(Step::Failed) => loose = true,
            _ => {}
        }
        if loose {
            // accounts of an interrupted transaction may be there
            for a in &s.snaps[i].accounts {
                if !a.path.is_empty() {
                    m.accounts.insert(a.path.clone());
                }
            }
        }
        let b = match ev {
            Ev::Report(lines, _) => cmp_balance(&m, lines),
            Ev::Totals(t) => cmp_accounts(&m, t, false),
            Ev::Find(name, Ok(Some((_, total)))) => {
                let path: Vec<String> = name.split(':').map(|s| s.to_string()).collect();
                cmp_amounts(m.totals().get(&path), total)
            }
            _ => None,
        };
        if let Some(b) = class("total", b) {
            return Some(b);
        }
        if let Some(b) = class("total", cmp_accounts(&m, &s.snaps[i].accounts, false)) {
            return Some(format!("{} (after operation {})", b, i));
        }
    }
    v.trivial = m.xacts.is_empty();
    None
}

fn c07(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look { links: true, ..Default::default() }, v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        match follow_any(plan, &out.stage_docs, &mut m, op, ev, v) {
            Err(e) => return Some(e),
            Ok(Step::Unsure) => return None,
            _ => {}
        }
        if let Some(b) = &s.links[i] {
            return Some(format!("stale link: after operation {}: {}", i, b));
        }
    }
    // through the links: the account and commodity written
    for (k, (mx, rx)) in m.xacts.iter().zip(&s.last.xacts).enumerate() {
        for (pi, (mp, rp)) in mx.posts.iter().zip(&rx.posts).enumerate() {
            if mp.account != rp.account {
                return Some(format!(
                    "wrong link: posting {}.{} leads to account {:?}, not {:?}",
                    k, pi, rp.account, mp.account
                ));
            }
            if let Some(a) = &rp.amount {
                if a.1 != mp.amount.1 {
                    return Some(format!(
                        "wrong link: posting {}.{} leads to commodity {:?}, not {:?}",
                        k, pi, a.1, mp.amount.1
                    ));
                }
            }
        }
    }
    v.trivial = m.xacts.len() < 2;
    None
}

/// The same plan with everything loaded from one document.
fn joined(plan: &Plan) -> Plan {
    let mut p = plan.clone();
    let mut all = Doc::default();
    let list = &plan.threads[0][0];
    let mut order = vec![];
    let mut cmd = None;
    for op in list {
        match op {
            Op::Text { doc } | Op::Read { doc, .. } => order.push(*doc),
            Op::File { file, .. } => order.push(plan.files[*file].doc),
            Op::Cmd { files, .. } => {
                order.extend(files.iter().map(|f| plan.files[*f].doc));
                cmd = Some(op.clone());
            }
            _ => {}
        }
    }
    for (n, d) in order.iter().enumerate() {
        if n == 0 {
            all.crlf = plan.docs[*d].crlf;
        }
        all.items.extend(plan.docs[*d].items.iter().cloned());
    }
    let d = p.docs.len();
    p.docs.push(all);
    p.env = Env {
        hash: plan.env.hash,
        clock: plan.env.clock,
        tz: plan.env.tz.clone(),
        stack: 0,
        alloc: 0,
    };
    if let Some(Op::Cmd { verb, abs, style, .. }) = cmd {
        p.files.push(File {
            name: "joined.ledger".into(),
            doc: d,
            del: Delivery::default(),
            kind: 0,
            open_errno: 0,
            world: 0,
            edit: Edit::default(),
        });
        let f = p.files.len() - 1;
        p.threads = vec![vec![vec![Op::Cmd { verb, files: vec![f], abs, style }]]];
    } else {
        p.threads = vec![vec![vec![Op::Text { doc: d }, Op::Report]]];
    }
    p
}

/// Everything a caller can see is the same.
fn same(a: &SessionOut, b: &SessionOut) -> Bad {
    if a.last.xacts != b.last.xacts {
        if a.last.xacts.len() != b.last.xacts.len() {
            return Some(format!("{} transactions and {}", a.last.xacts.len(), b.last.xacts.len()));
        }
        let i = (0..a.last.xacts.len()).find(|i| a.last.xacts[*i] != b.last.xacts[*i]).unwrap();
        return Some(format!(
            "transaction {}: {} and {}",
            i,
            clip_n(&format!("{:?}", a.last.xacts[i]), 300),
            clip_n(&format!("{:?}", b.last.xacts[i]), 300)
        ));
    }
    if a.last.accounts.len() != b.last.accounts.len() {
        return Some(format!("{} accounts and {}", a.last.accounts.len(), b.last.accounts.len()));
    }
    for (x, y) in a.last.accounts.iter().zip(&b.last.accounts) {
        if x != y {
            return Some(format!("account {:?} and {:?}", x, y));
        }
    }
    if a.last.pool != b.last.pool {
        return Some(format!("{} commodities and {}", a.last.pool, b.last.pool));
    }
    match (a.evs.last(), b.evs.last()) {
        (Some(Ev::Report(x1, y1)), Some(Ev::Report(x2, y2))) => {
            if x1 != x2 {
                return Some(format!("balance report: {}", first_diff(x1, x2)));
            }
            if y1 != y2 {
                return Some(format!("accounts report: {}", first_diff(y1, y2)));
            }
        }
        (Some(Ev::Cmd(x)), Some(Ev::Cmd(y))) => match (x, y) {
            (Ok(x), Ok(y)) => {
                if x != y {
                    return Some(format!("command output: {}", first_diff(x, y)));
                }
            }
            (Err(_), Err(_)) => {}
            _ => return Some(format!("command outcome: {} and {}", x.is_ok(), y.is_ok())),
        },
        _ => {}
    }
    None
}

fn clip_n(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn first_diff(a: &[String], b: &[String]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!(
                "line {}: {:?} and {:?}",
                i,
                a.get(i).map(|s| clip_n(s, 120)),
                b.get(i).map(|s| clip_n(s, 120))
            );
        }
    }
    "equal".to_string()
}

fn first_load_error(s: &SessionOut) -> Option<&String> {
    s.evs.iter().find_map(|e| match e {
        Ev::Load(Err(t)) | Ev::Cmd(Err(t)) => Some(t),
        _ => None,
    })
}

fn c08(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let one = joined(plan);
    let a = arm!(dir, &one, &one.env, Look::default(), v);
    let b = arm!(dir, plan, &plan.env, Look::default(), v);
    let (a, b) = (&a.threads[0][0], &b.threads[0][0]);
    v.trivial = plan.docs.iter().all(|d| d.items.is_empty());
    match (first_load_error(a), first_load_error(b)) {
        (Some(_), Some(_)) => {
            v.trivial = true;
            return None;
        }
        (None, Some(e)) => return Some(format!("pieces fail: {}", clip(e))),
        (Some(e), None) => return Some(format!("whole fails: {}", clip(e))),
        _ => {}
    }
    // snapshots are compared without the pool's addresses
    class("pieces differ from whole", same(b, a))
}

/// The plan with all includes replaced by the text of the file.
fn inlined(plan: &Plan) -> Plan {
    fn flat(plan: &Plan, doc: usize, out: &mut Vec<Item>, depth: usize) {
        if depth > DEEP {
            return;
        }
        for i in &plan.docs[doc].items {
            match i {
                Item::I { file, .. } => flat(plan, plan.files[*file].doc, out, depth + 1),
                other => out.push(other.clone()),
            }
        }
    }
    let mut p = plan.clone();
    for d in 0..plan.docs.len() {
        let mut items = vec![];
        flat(plan, d, &mut items, 0);
        p.docs[d].items = items;
    }
    p
}

fn c09(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let b = arm!(dir, plan, &plan.env, Look::default(), v);
    // does the plan reach a missing file?
    let roots: Vec<usize> = ops(plan)
        .filter_map(|o| match o {
            Op::Text { doc } | Op::Read { doc, .. } => Some(vec![*doc]),
            Op::File { file, .. } => Some(vec![plan.files[*file].doc]),
            Op::Cmd { files, .. } => Some(files.iter().map(|f| plan.files[*f].doc).collect()),
            _ => None,
        })
        .flatten()
        .collect();
    let missing = (0..plan.files.len())
        .filter(|f| plan.files[*f].kind == 1)
        .any(|f| roots.iter().any(|r| reaches_file(plan, *r, f)));
    let direct_missing = ops(plan).any(|o| match o {
        Op::File { file, .. } => plan.files[*file].kind == 1,
        Op::Cmd { files, .. } => files.iter().any(|f| plan.files[*f].kind == 1),
        _ => false,
    });
    if direct_missing {
        v.trivial = true;
        return None;
    }
    let bs = &b.threads[0][0];
    if missing {
        mark(v, "missing_includes", 1);
        return match first_load_error(bs) {
            Some(_) => None,
            None => Some("missing include accepted: the load succeeded".to_string()),
        };
    }
    let flat = inlined(plan);
    let a = arm!(dir, &flat, &flat.env, Look::default(), v);
    let a_s = &a.threads[0][0];
    if let Some(e) = first_load_error(a_s) {
        return Some(format!("load failed: well-formed journal refused: {}", clip(e)));
    }
    if let Some(e) = first_load_error(bs) {
        return Some(format!("include failed: {}", clip(e)));
    }
    if let Some(b) = class("include differs from text in place", same(bs, a_s)) {
        return Some(b);
    }
    // each include line reads its file once
    let mut m = Model::default();
    for r in &roots {
        let _ = m.load(plan, *r, 0);
    }
    let mut want: BTreeMap<usize, usize> = m.includes.clone();
    for o in ops(plan) {
        match o {
            Op::File { file, .. } => *want.entry(*file).or_default() += 1,
            Op::Cmd { files, .. } => {
                for f in files {
                    *want.entry(*f).or_default() += 1;
                }
            }
            _ => {}
        }
    }
    mark(v, "include_lines", m.includes.values().sum::<usize>() as u64);
    v.trivial = m.includes.is_empty();
    for (i, f) in b.files.iter().enumerate() {
        let w = want.get(&i).copied().unwrap_or(0);
        if f.used != w {
            return Some(format!("file read {} times instead of {}: {}", f.used, w, plan.files[i].name));
        }
    }
    None
}

fn c10(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let a = arm!(dir, plan, &plan.env, Look::default(), v);
    let mut other = plan.clone();
    for f in &mut other.files {
        f.del = Delivery::default();
    }
    let b = arm!(dir, &other, plan.env2.as_ref().unwrap(), Look::default(), v);
    let (a, b) = (&a.threads[0][0], &b.threads[0][0]);
    let mut loaded = Model::default();
    for (op, (x, y)) in plan.threads[0][0].iter().zip(a.evs.iter().zip(&b.evs)) {
        if let Err(e) = follow(plan, &mut loaded, op, x) {
            return Some(e);
        }
        match (x, y) {
            (Ev::Report(b1, a1), Ev::Report(b2, a2)) => {
                if b1 != b2 || a1 != a2 {
                    return Some(format!("not reproducible: {}, {}", first_diff(b1, b2), first_diff(a1, a2)));
                }
                if let Some(b) = class("order", cmp_order(&loaded, b1)) {
                    return Some(b);
                }
                let mut sorted = a1.clone();
                sorted.sort();
                if sorted != loaded.account_names() {
                    return Some(format!("accounts report: {}", first_diff(&sorted, &loaded.account_names())));
                }
            }
            (Ev::Tree(Ok(x)), Ev::Tree(Ok(y))) => {
                if x != y {
                    return Some(format!("not reproducible: account tree: {}", first_diff(x, y)));
                }
            }
            (Ev::Tree(x), _) | (_, Ev::Tree(x)) => {
                return Some(format!("account tree: {}", x.as_ref().err().map_or("in one environment only", |e| e)));
            }
            _ => {}
        }
        v.trivial = loaded.xacts.is_empty();
        let Op::Cmd { verb, files, .. } = op else { continue };
        let (Ev::Cmd(x), Ev::Cmd(y)) = (x, y) else { continue };
        let (x, y) = match (x, y) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), Err(_)) => return Some(format!("load failed: well-formed journal refused: {}", clip(e))),
            _ => return Some("not reproducible: fails in one environment only".to_string()),
        };
        if x != y {
            return Some(format!("not reproducible: {}", first_diff(x, y)));
        }
        let mut m = Model::default();
        for f in files {
            let _ = m.load(plan, plan.files[*f].doc, 0);
        }
        v.trivial = m.xacts.is_empty();
        if verb.starts_with('b') {
            if let Some(b) = class("order", cmp_order(&m, x)) {
                return Some(b);
            }
        } else if *x != m.account_names() {
            return Some(format!("accounts report: {}", first_diff(x, &m.account_names())));
        }
    }
    None
}

fn c11(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    for (t, (sessions, outs)) in plan.threads.iter().zip(&out.threads).enumerate() {
        for (k, (list, s)) in sessions.iter().zip(outs).enumerate() {
            let mut m = Model::default();
            let mut sure = true;
            let at = format!("thread {} session {}", t, k);
            for (op, ev) in list.iter().zip(&s.evs) {
                match (op, ev) {
                    (Op::Cmd { verb, files, .. }, Ev::Cmd(r)) => {
                        let mut m = Model::default();
                        let mut fine = true;
                        for f in files {
                            fine = fine && plan.files[*f].kind == 0 && plan.files[*f].del.fail.is_none();
                            fine = fine && load_prefix(plan, &out.stage_docs, &mut m, plan.files[*f].doc, None, 0);
                        }
                        match (fine, r) {
                            (true, Err(e)) => return Some(format!("interference: {}: command failed: {}", at, clip(e))),
                            (false, Ok(_)) => return Some(format!("interference: {}: failing command succeeded", at)),
                            (false, Err(_)) => {}
                            (true, Ok(lines)) => {
                                let b = if verb.starts_with('b') {
                                    cmp_order(&m, lines).or_else(|| cmp_balance(&m, lines))
                                } else if *lines != m.account_names() {
                                    Some(first_diff(lines, &m.account_names()))
                                } else {
                                    None
                                };
                                if let Some(b) = b {
                                    return Some(format!("interference: {}: {}", at, b));
                                }
                            }
                        }
                    }
                    (Op::Text { .. } | Op::Read { .. } | Op::File { .. }, Ev::Load(r)) => {
                        let doc = match op {
                            Op::Text { doc } | Op::Read { doc, .. } => *doc,
                            Op::File { file, .. } => plan.files[*file].doc,
                            _ => unreachable!(),
                        };
                        let fine = load_prefix(plan, &out.stage_docs, &mut m, doc, None, 0);
                        match (fine, r) {
                            (true, Err(e)) => return Some(format!("interference: {}: load failed: {}", at, clip(e))),
                            // malformed text that is accepted: nothing more to say
                            (false, Ok(())) => sure = false,
                            (false, Err(_)) => sure = false,
                            _ => {}
                        }
                    }
                    (_, Ev::Report(lines, _)) if sure => {
                        if let Some(b) = cmp_order(&m, lines).or_else(|| cmp_balance(&m, lines)) {
                            return Some(format!("interference: {}: {}", at, b));
                        }
                    }
                    (Op::Find { name }, Ev::Find(_, r)) if sure => {
                        let path: Vec<String> = name.split(':').map(|s| s.to_string()).collect();
                        if let Ok(f) = r {
                            if f.is_some() != m.accounts.contains(&path) {
                                return Some(format!("interference: {}: lookup of {:?}", at, name));
                            }
                        }
                    }
                    _ => {}
                }
            }
            if sure {
                if let Some(b) = cmp_xacts(&m.xacts, &s.last.xacts) {
                    return Some(format!("interference: {}: {}", at, b));
                }
                if let Some(b) = cmp_accounts(&m, &s.last.accounts, true) {
                    return Some(format!("interference: {}: {}", at, b));
                }
            }
        }
    }
    None
}

fn c12(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        match follow_any(plan, &out.stage_docs, &mut m, op, ev, v) {
            Err(e) => return Some(e),
            Ok(Step::Unsure) => return None,
            _ => {}
        }
    }
    mark(v, "price_points", m.prices.len() as u64);
    v.trivial = m.prices.is_empty();
    cmp_prices(&m, &s.last)
}

fn cmp_prices(m: &Model, last: &Snap) -> Bad {
    let mut got: BTreeMap<(String, String, String), Dec> = BTreeMap::new();
    for (f, t, w, q) in &last.prices {
        if got.insert((f.clone(), t.clone(), w.clone()), *q).is_some() {
            return Some(format!("price recorded twice: {} in {} at {}", f, t, w));
        }
    }
    for (k, q) in &m.prices {
        match got.remove(k) {
            None => return Some(format!("price lost: {:?} {}", k, q.to_string())),
            Some(g) if if m.rough.contains(k) { !g.close(q) } else { g != *q } => {
                return Some(format!("price wrong: {:?} {} instead of {}", k, g.to_string(), q.to_string()))
            }
            _ => {}
        }
    }
    if let Some((k, q)) = got.iter().next() {
        return Some(format!("price from nowhere: {:?} {}", k, q.to_string()));
    }
    None
}

fn c13(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        match (op, ev) {
            (Op::Rate { from, to, .. }, Ev::Rate(_, _, r)) => {
                let want = m.rates(from, to);
                let got = match r {
                    Ok(g) => g,
                    Err(e) => return Some(format!("lookup failed: {} to {}: {}", from, to, clip(e))),
                };
                match got {
                    None if want.is_empty() => {}
                    None => return Some(format!("rate not found: {} to {}", from, to)),
                    Some(g) => {
                        if want.is_empty() {
                            return Some(format!("rate from nowhere: {} to {}: {:?}", from, to, g));
                        }
                        if !want.iter().any(|(w, q)| *w == g.0 && q.is(&g.1)) {
                            return Some(format!(
                                "rate wrong: {} to {}: {} at {} instead of {}",
                                from,
                                to,
                                g.1.to_string(),
                                g.0,
                                want.iter().map(|(w, q)| format!("{} at {}", q.q.to_string(), w)).collect::<Vec<_>>().join(" or ")
                            ));
                        }
                        if g.2 != *to {
                            return Some(format!("rate wrong: {} to {} is in {:?}", from, to, g.2));
                        }
                    }
                }
            }
            _ => {
                if let Err(e) = follow(plan, &mut m, op, ev) {
                    return Some(e);
                }
            }
        }
    }
    None
}

/// The damaged number: (document, transaction, posting, is cost, start, end) before the damage.
fn c14_target(plan: &Plan) -> Option<(usize, usize, usize, bool, usize, usize)> {
    let list: Vec<&Op> = ops(plan).collect();
    if list.len() != 1 {
        return None;
    }
    let (doc, edit) = edit_of(plan, list[0])?;
    let sp = edit.splice.as_ref()?;
    if sp.with.iter().any(|b| *b == b';' || *b == b'\n' || *b == b'\r') {
        return None;
    }
    let (_, spans) = rendered(plan, doc);
    for (xi, x) in spans.xacts.iter().enumerate() {
        for (p, cost, s, e) in &x.numbers {
            if sp.at >= *s && sp.at + sp.len <= *e {
                return Some((doc, xi, *p, *cost, *s, *e));
            }
        }
    }
    None
}

fn c14(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let (doc, xi, pi, is_cost, s, e) = c14_target(plan).unwrap();
    let op = ops(plan).next().unwrap();
    let (_, edit) = edit_of(plan, op).unwrap();
    let sp = edit.splice.as_ref().unwrap();
    let (bytes, _) = rendered(plan, doc);
    let mut num = bytes[s..e].to_vec();
    num.splice(sp.at - s..sp.at - s + sp.len, sp.with.iter().copied());
    let xs: Vec<&Xact> = plan.docs[doc]
        .items
        .iter()
        .filter_map(|i| if let Item::X(x) = i { Some(x) } else { None })
        .collect();
    let x = xs[xi];
    let post = &x.posts[pi];
    let amt = if is_cost { &post.cost.as_ref().unwrap().amt } else { post.amt.as_ref().unwrap() };
    // is the text still a number?
    let text = String::from_utf8(num.clone()).ok();
    let still = text.as_ref().and_then(|t| Dec::parse(t));
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let so = &out.threads[0][0];
    let failed = matches!(so.evs[0], Ev::Load(Err(_)));
    if failed {
        mark(v, "refused", 1);
        return None;
    }
    if still.is_some() && num.len() < 20 {
        mark(v, "still_a_number", 1);
        v.trivial = true;
        return None;
    }
    mark(v, if still.is_some() { "accepted_long" } else { "accepted_damaged" }, 1);
    let Some(rx) = so.last.xacts.get(xi) else {
        return Some("damaged transaction vanished: load succeeded".to_string());
    };
    if rx.posts.len() != x.posts.len() {
        return Some(format!("damaged posting: {} postings instead of {}", rx.posts.len(), x.posts.len()));
    }
    let rp = &rx.posts[pi];
    // Nothing of the number left and no symbol: it was left out.
    let line_has_other = !amt.sym.is_empty() || is_cost;
    let rest_empty = num.iter().all(|b| b.is_ascii_whitespace());
    if rest_empty && !line_has_other {
        v.trivial = true;
        return None;
    }
    // The damaged text may begin with a shorter valid number, followed by something read as (part of) a
    // symbol. Accepting exactly that number is not treating it as left out.
    let mut allowed: Vec<Dec> = vec![];
    // every maximal run of number characters in it
    let mut run = String::new();
    for b in num.iter().copied().chain([b' ']) {
        if b.is_ascii_digit() || b == b'-' || b == b'.' || b == b',' {
            run.push(b as char);
        } else if !run.is_empty() {
            if let Some(d) = Dec::parse(&run) {
                allowed.push(d);
            }
            run.clear();
        }
    }
    // and what is left when leading bytes go to a symbol written before the number
    for i in 1..num.len() {
        if let Some(d) = std::str::from_utf8(&num[i..]).ok().and_then(Dec::parse) {
            allowed.push(d);
        }
    }
    let got = if is_cost { rp.cost.clone() } else { rp.amount.clone() };
    let Some(got) = got else {
        return Some(format!(
            "damaged {} ignored: {:?} read as nothing",
            if is_cost { "cost" } else { "amount" },
            String::from_utf8_lossy(&num)
        ));
    };
    let ok = allowed.iter().any(|d| {
        if is_cost && post.cost.as_ref().unwrap().per_unit {
            let q = rp.amount.as_ref().map(|a| a.0).unwrap_or(Dec::ZERO);
            // the total of a long price may have more digits than can be held
            let total = d.mul(q).filter(|p| p.fits());
            total.map_or_else(|| d.mul_approx(q).map_or(false, |p| p.close(&got.0)), |p| p == got.0)
        } else {
            *d == got.0
        }
    });
    if !ok {
        return Some(format!(
            "damaged {} guessed: {:?} read as {} {}",
            if is_cost { "cost" } else { "amount" },
            String::from_utf8_lossy(&num),
            got.0.to_string(),
            got.1
        ));
    }
    None
}

fn c15(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    let mut loose = false;
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        match follow_any(plan, &out.stage_docs, &mut m, op, ev, v) {
            Err(e) => return Some(e),
            Ok(Step::Unsure) => return None,
            Ok(Step::Failed) => loose = true,
            _ => {}
        }
    }
    v.trivial = m.syms.is_empty();
    mark(v, "commodities", m.syms.len() as u64);
    let mut by_sym: BTreeMap<&str, usize> = BTreeMap::new();
    let mut by_addr: BTreeMap<usize, &str> = BTreeMap::new();
    for (sym, addr) in &s.last.commodities {
        if sym.is_empty() {
            if *addr != 0 {
                return Some("commodity without a symbol".to_string());
            }
            continue;
        }
        if *addr == usize::MAX {
            if m.syms.contains(sym) {
                return Some(format!("commodity not found: {:?}", sym));
            }
            continue;
        }
        if *by_sym.entry(sym).or_insert(*addr) != *addr {
            return Some(format!("two commodities for one symbol: {:?}", sym));
        }
        if *by_addr.entry(*addr).or_insert(sym) != sym {
            return Some(format!("one commodity for two symbols: {:?}", sym));
        }
    }
    for (i, (mx, rx)) in m.xacts.iter().zip(&s.last.xacts).enumerate() {
        for (k, (mp, rp)) in mx.posts.iter().zip(&rx.posts).enumerate() {
            if let Some(a) = &rp.amount {
                if a.1 != mp.amount.1 {
                    return Some(format!("wrong commodity: posting {}.{}: {:?} instead of {:?}", i, k, a.1, mp.amount.1));
                }
            }
            if let (Some(c), MCost::Exact(_, sym) | MCost::Approx(_, sym)) = (&rp.cost, &mp.cost) {
                if c.1 != *sym {
                    return Some(format!("wrong commodity: cost of posting {}.{}: {:?} instead of {:?}", i, k, c.1, sym));
                }
            }
        }
    }
    if s.last.pool < m.syms.len() || (!loose && s.last.pool != m.syms.len()) {
        return Some(format!("number of commodities: {} instead of {}", s.last.pool, m.syms.len()));
    }
    None
}

fn c16(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look { every_op: true, ..Default::default() }, v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    let mut loose = false;
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        match follow_any(plan, &out.stage_docs, &mut m, op, ev, v) {
            Err(e) => return Some(e),
            Ok(Step::Unsure) => return None,
            Ok(Step::Failed) => loose = true,
            _ => {}
        }
        if let Ev::Find(name, r) = ev {
            let path: Vec<String> = name.split(':').map(|s| s.to_string()).collect();
            let there = m.accounts.contains(&path);
            match r {
                Err(e) => return Some(format!("lookup failed: {:?}: {}", name, clip(e))),
                Ok(None) if there => return Some(format!("account not found: {:?}", name)),
                Ok(Some((full, _))) if !there && !loose => {
                    return Some(format!("account found that was never used: {:?} gave {:?}", name, full))
                }
                Ok(Some((full, _))) if full != name => {
                    return Some(format!("wrong account: {:?} gave {:?}", name, full))
                }
                _ => {}
            }
        }
        let mut seen = BTreeSet::new();
        for a in &s.snaps[i].accounts {
            if !seen.insert(a.path.clone()) {
                return Some(format!("account tree: {:?} twice", a.path));
            }
            if !loose && !a.path.is_empty() && !m.accounts.contains(&a.path) {
                return Some(format!("account tree: {:?} was never posted to", a.path));
            }
            if a.fullname != a.path.join(":") {
                return Some(format!("account tree: {:?} calls itself {:?}", a.path, a.fullname));
            }
        }
        for p in &m.accounts {
            if !seen.contains(p) {
                return Some(format!("account tree: {:?} is missing", p));
            }
        }
        for (mx, rx) in m.xacts.iter().zip(&s.snaps[i].xacts) {
            for (mp, rp) in mx.posts.iter().zip(&rx.posts) {
                if mp.account != rp.account {
                    return Some(format!("account tree: posting in {:?} instead of {:?}", rp.account, mp.account));
                }
            }
        }
    }
    v.trivial = m.accounts.is_empty();
    None
}

fn c18(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        if let Err(e) = follow(plan, &mut m, op, ev) {
            return Some(e);
        }
    }
    v.trivial = true;
    for (i, (mx, rx)) in m.xacts.iter().zip(&s.last.xacts).enumerate() {
        if mx.posts.len() != rx.posts.len() {
            return Some(format!("postings: transaction {}: {} instead of {}", i, rx.posts.len(), mx.posts.len()));
        }
        for (k, (mp, rp)) in mx.posts.iter().zip(&rx.posts).enumerate() {
            if mp.cost != MCost::None {
                v.trivial = false;
                mark(v, if mx.implied { "implied_costs" } else { "stated_costs" }, 1);
            }
            if let Some(b) = cmp_cost(&mp.cost, &rp.cost) {
                return Some(format!("cost: posting {}.{}: {}", i, k, b));
            }
            if mx.inferred != Some(k) {
                if let Some(b) = cmp_money(&mp.amount, &rp.amount) {
                    return Some(format!("amount changed: posting {}.{}: {}", i, k, b));
                }
            }
        }
    }
    None
}

/// What the process is set to do on signals and on new files.
fn process_settings() -> Vec<usize> {
    let mut all = vec![];
    unsafe {
        for s in 1..32 {
            let mut a: libc::sigaction = std::mem::zeroed();
            libc::sigaction(s, std::ptr::null(), &mut a);
            all.push(a.sa_sigaction);
        }
        let m = libc::umask(0o22);
        libc::umask(m);
        all.push(m as usize);
    }
    all
}

fn c22(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let before = process_settings();
    let out = arm!(dir, plan, &plan.env, Look { outside: true, ..Default::default() }, v);
    for (k, s) in out.threads[0].iter().enumerate() {
        for (i, o) in s.outside.iter().enumerate() {
            if let Some(o) = o {
                return Some(format!("trace left: session {} operation {}: {}", k, i, o));
            }
        }
    }
    if process_settings() != before {
        return Some("trace left: signal handlers or file mode mask changed".to_string());
    }
    let hooked = || crate::HOOKED.load(std::sync::atomic::Ordering::Relaxed);
    let n = hooked();
    let _ = crate::exec::guard(|| -> () { panic!("probe") });
    if hooked() != n + 1 {
        return Some("trace left: the panic hook was replaced".to_string());
    }
    class("trace left", out.changed)
}

fn c23(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    const ROUNDS: usize = 16;
    let held = match rounds(dir, plan, &Env { alloc: 0, ..plan.env.clone() }, ROUNDS) {
        Ok(h) => h,
        Err(e) => return Some(format!("observation failed: {}", e)),
    };
    v.state = crate::rng::hash_bytes(0, format!("{:?}", held).as_bytes());
    mark(v, "rounds", held.len() as u64);
    // whatever is set up once, or kept for the contents seen, is there by now
    let (early, mid, late) = (held[3], held[9], held[ROUNDS - 1]);
    if late.0 > mid.0 && mid.0 > early.0 || late.1 > mid.1 && mid.1 > early.1 {
        return Some(format!(
            "memory accumulates: {} blocks, {} bytes after 4 rounds, {} blocks, {} bytes after {}",
            early.0, early.1, late.0, late.1, ROUNDS
        ));
    }
    None
}

fn c24(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let look = Look { every_op: true, sound: true, ..Default::default() };
    let out = arm!(dir, plan, &plan.env, look, v);
    let s = &out.threads[0][0];
    let mut held: Vec<RXact> = vec![];
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        let now = &s.snaps[i].xacts;
        if now.len() < held.len() || now[..held.len()] != held[..] {
            return Some(format!("earlier transactions disturbed: by operation {}", i));
        }
        if let Some(b) = &s.sound[i] {
            return Some(format!("journal damaged: after operation {}: {}", i, b));
        }
        let added = &now[held.len()..];
        let good = match op {
            Op::Text { doc } => Some(*doc),
            _ => edit_of(plan, op).and_then(|(d, e)| (*e == Edit::default()).then_some(d)),
        };
        match (good, ev) {
            (Some(doc), Ev::Load(r)) => {
                let mut m = Model::default();
                let _ = m.load(plan, doc, 0);
                if let Err(e) = r {
                    return Some(format!("later load failed: well-formed journal refused: {}", clip(e)));
                }
                if let Some(b) = class("later load differs", cmp_xacts(&m.xacts, added)) {
                    return Some(b);
                }
                mark(v, "good_loads", 1);
            }
            (None, Ev::Load(r)) => mark(v, if r.is_ok() { "wrecked_accepted" } else { "wrecked_refused" }, 1),
            (_, Ev::Report(a, b)) => {
                if let Some(l) = a.iter().chain(b).find(|l| l.starts_with("panic: ")) {
                    return Some(format!("report failed: {}", clip(l)));
                }
                if a.len() != s.snaps[i].accounts.len() || b.len() != a.len() {
                    return Some(format!("report of {} and {} lines for {} accounts", a.len(), b.len(), s.snaps[i].accounts.len()));
                }
            }
            _ => {}
        }
        held = now.clone();
    }
    None
}

fn c19(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    let mut sure = true;
    for (op, ev) in plan.threads[0][0].iter().zip(&s.evs) {
        let (doc, f) = match op {
            Op::Text { doc } => (*doc, None),
            Op::Read { doc, del, .. } => (*doc, del.fail.as_ref()),
            Op::File { file, .. } => (plan.files[*file].doc, plan.files[*file].del.fail.as_ref()),
            _ => continue,
        };
        let Ev::Load(r) = ev else { continue };
        if cyclic(plan, doc) {
            mark(v, "include_cycles", 1);
            sure = false;
            if r.is_ok() {
                return Some("include cycle accepted: the load succeeded".to_string());
            }
        } else if bottomless(plan) && plan.docs.len() > DEEP {
            // working or failing, but coming back
            mark(v, "deep_includes", 1);
            sure = false;
        } else if f.is_some() || (0..plan.files.len()).any(|k| plan.files[k].del.fail.is_some() && reaches_file(plan, doc, k)) {
            mark(v, "lasting_failures", 1);
            sure = false;
            if r.is_ok() {
                return Some("failing source did not end the load: it succeeded".to_string());
            }
        } else {
            let _ = m.load(plan, doc, 0);
            if let Err(e) = r {
                return Some(format!("interruptions did not only delay: load failed: {}", clip(e)));
            }
        }
    }
    if sure && m.xacts.len() != s.last.xacts.len() {
        return Some(format!(
            "interruptions did not only delay: {} transactions instead of {}",
            s.last.xacts.len(),
            m.xacts.len()
        ));
    }
    let (end, fail) = crate::sys::world(|w| (w.max_after_end, w.max_after_fail));
    if end > 16 {
        return Some(format!("asked again after the end: {} times", end));
    }
    if fail > 16 {
        return Some(format!("asked again after a lasting failure: {} times", fail));
    }
    None
}

fn c25(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look { every_op: true, links: true, ..Default::default() }, v);
    let s = &out.threads[0][0];
    let mut m = Model::default();
    let mut held: Vec<&Xact> = vec![];
    let mut loose = false;
    let mut calls = 0;
    for (i, (op, ev)) in plan.threads[0][0].iter().zip(&s.evs).enumerate() {
        match (op, ev) {
            (Op::Api { .. } | Op::Commit, Ev::Load(Err(e))) => return Some(format!("call failed: {}", clip(e))),
            (Op::Api { doc, how }, _) => {
                for item in &plan.docs[*doc].items {
                    match item {
                        Item::X(x) if how & HOLD != 0 => {
                            x.posts.iter().for_each(|p| m.register(&p.acct));
                            held.push(x);
                        }
                        _ => {
                            if let Err(e) = m.add_item(plan, item, 0) {
                                return Some(format!("harness: {:?}", e));
                            }
                        }
                    }
                    calls += 1;
                }
            }
            (Op::Commit, _) => {
                for x in held.drain(..) {
                    if let Err(e) = m.add_xact(x) {
                        return Some(format!("harness: {:?}", e));
                    }
                }
            }
            _ => match follow_any(plan, &out.stage_docs, &mut m, op, ev, v) {
                Err(e) => return Some(e),
                Ok(Step::Unsure) => return None,
                Ok(Step::Failed) => loose = true,
                _ => {}
            },
        }
        if loose {
            for a in &s.snaps[i].accounts {
                if !a.path.is_empty() {
                    m.accounts.insert(a.path.clone());
                }
            }
        }
        if let Some(b) = &s.links[i] {
            return Some(format!("stale link: after operation {}: {}", i, b));
        }
        let b = match ev {
            Ev::Report(lines, _) => cmp_balance(&m, lines),
            Ev::Totals(t) => cmp_accounts(&m, t, false),
            _ => None,
        };
        if let Some(b) = class("total", b.or_else(|| cmp_accounts(&m, &s.snaps[i].accounts, true))) {
            return Some(format!("{} (after operation {})", b, i));
        }
    }
    mark(v, "calls", calls);
    v.trivial = calls == 0 || m.xacts.is_empty();
    if let Some(b) = class("journal differs", cmp_xacts(&m.xacts, &s.last.xacts)) {
        return Some(b);
    }
    if cfg!(feature = "hooks") && !loose {
        return cmp_prices(&m, &s.last);
    }
    None
}

/// Which document each file holds now, and where the caller is.
struct Disk {
    holds: Vec<Option<usize>>,
    world: usize,
}

impl Disk {
    fn find(&self, file: usize, abs: bool) -> Option<usize> {
        self.holds[if abs { file } else { file / 2 * 2 + self.world }]
    }
    /// false: a file on the way is not there
    fn load(&self, plan: &Plan, m: &mut Model, doc: Option<usize>) -> bool {
        let Some(doc) = doc else { return false };
        plan.docs[doc].items.iter().all(|item| match item {
            Item::I { file, abs } => self.load(plan, m, self.find(*file, *abs)),
            item => m.add_item(plan, item, 0).is_ok(),
        })
    }
}

fn c26(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let out = arm!(dir, plan, &plan.env, Look::default(), v);
    let mut disk = Disk { holds: plan.files.iter().map(|f| Some(f.doc)).collect(), world: 0 };
    let (mut changes, mut looks) = (0, 0);
    for (list, s) in plan.threads[0].iter().zip(&out.threads[0]) {
        let mut m = Model::default();
        for (i, (op, ev)) in list.iter().zip(&s.evs).enumerate() {
            match (op, ev) {
                (Op::Rewrite { file, doc, .. }, _) => {
                    disk.holds[*file] = Some(*doc);
                    changes += 1;
                }
                (Op::Remove { file }, _) => {
                    disk.holds[*file] = None;
                    changes += 1;
                }
                (Op::Chdir(w), _) => {
                    disk.world = *w as usize;
                    changes += 1;
                }
                (Op::Cmd { verb, files, abs, .. }, Ev::Cmd(r)) => {
                    looks += 1;
                    let mut m = Model::default();
                    let fine = files.iter().all(|f| disk.load(plan, &mut m, disk.find(*f, *abs)));
                    match (fine, r) {
                        (true, Err(e)) => return Some(format!("not as it is now: operation {}: command failed: {}", i, clip(e))),
                        (false, Ok(_)) => return Some(format!("not as it is now: operation {}: a file that is gone was read", i)),
                        (false, Err(_)) => {}
                        (true, Ok(lines)) => {
                            let b = if verb.starts_with('b') {
                                cmp_balance(&m, lines)
                            } else {
                                (*lines != m.account_names()).then(|| first_diff(lines, &m.account_names()))
                            };
                            if let Some(b) = b {
                                return Some(format!("not as it is now: operation {}: {}", i, b));
                            }
                        }
                    }
                }
                (Op::File { file, abs }, Ev::Load(r)) => {
                    looks += 1;
                    match (disk.load(plan, &mut m, disk.find(*file, *abs)), r) {
                        (true, Err(e)) => return Some(format!("not as it is now: operation {}: load failed: {}", i, clip(e))),
                        (false, Ok(_)) => return Some(format!("not as it is now: operation {}: a file that is gone was read", i)),
                        _ => {}
                    }
                }
                (_, Ev::Report(lines, _)) => {
                    if let Some(b) = class("not as it is now", cmp_balance(&m, lines)) {
                        return Some(b);
                    }
                }
                _ => {}
            }
        }
        if let Some(b) = class("not as it is now", cmp_xacts(&m.xacts, &s.last.xacts)) {
            return Some(b);
        }
    }
    mark(v, "changes", changes);
    v.trivial = changes == 0 || looks == 0;
    None
}
