//! The plan: everything that decides one simulated execution, as plain data,
//! and the text rendering of journal documents.

use serde::{Deserialize, Serialize};

use crate::dec::Dec;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Num {
    #[serde(default)]
    pub neg: bool,
    pub int: String,
    #[serde(default)]
    pub frac: Option<String>,
}

impl Num {
    pub fn text(&self) -> String {
        let mut t = String::new();
        if self.neg {
            t.push('-');
        }
        t.push_str(&self.int);
        if let Some(f) = &self.frac {
            t.push('.');
            t.push_str(f);
        }
        t
    }
    pub fn dec(&self) -> Option<Dec> {
        Dec::parse(&self.text())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Amt {
    pub n: Num,
    pub sym: String,
    /// 0 `N S`, 1 `NS`, 2 `S N`, 3 `SN`, 4 `N  S`
    #[serde(default)]
    pub style: u8,
}

impl Amt {
    /// (text, offset of the number in it)
    pub fn text(&self) -> (String, usize) {
        let n = self.n.text();
        if self.sym.is_empty() {
            return (n, 0);
        }
        match self.style {
            1 => (format!("{}{}", n, self.sym), 0),
            2 => (format!("{} {}", self.sym, n), self.sym.len() + 1),
            3 => (format!("{}{}", self.sym, n), self.sym.len()),
            4 => (format!("{}   {}", n, self.sym), 0),
            _ => (format!("{} {}", n, self.sym), 0),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Lot {
    pub price: Option<Amt>,
    pub date: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cost {
    pub per_unit: bool,
    pub amt: Amt,
    /// no space after the @
    #[serde(default)]
    pub tight: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Post {
    pub acct: Vec<String>,
    #[serde(default)]
    pub amt: Option<Amt>,
    #[serde(default)]
    pub lot: Option<Lot>,
    #[serde(default)]
    pub cost: Option<Cost>,
    /// note on the posting line
    #[serde(default)]
    pub inline: Option<String>,
    /// note on the line after it
    #[serde(default)]
    pub note: Option<String>,
    #[serde(default)]
    pub indent: u8,
    #[serde(default)]
    pub sep: u8,
    #[serde(default)]
    pub trail: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Xact {
    pub date: String,
    #[serde(default)]
    pub aux: Option<String>,
    #[serde(default)]
    pub payee: Option<String>,
    #[serde(default)]
    pub hnote: Option<String>,
    #[serde(default)]
    pub note: Option<String>,
    pub posts: Vec<Post>,
    /// spaces in the blank line that ends it
    #[serde(default)]
    pub end: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Price {
    pub date: String,
    #[serde(default)]
    pub time: Option<String>,
    pub from: String,
    pub q: Num,
    pub to: String,
    #[serde(default)]
    pub wide: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    X(Xact),
    P(Price),
    /// comment line
    C(String),
    /// include of a file of the plan
    I { file: usize, abs: bool },
    /// blank line
    B,
    /// malformed line(s)
    Bad(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub items: Vec<Item>,
    #[serde(default)]
    pub crlf: bool,
    /// the last transaction has no blank line after it
    #[serde(default)]
    pub open_end: bool,
    /// the last line has no newline
    #[serde(default)]
    pub no_nl: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fail {
    pub at: usize,
    /// index into ERRNOS / KINDS
    pub kind: u8,
    /// fails only the first time
    #[serde(default)]
    pub once: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Delivery {
    /// sizes of successive reads, repeated; 0 = as much as asked for
    #[serde(default)]
    pub chunks: Vec<u32>,
    /// interruptions before successive reads, repeated
    #[serde(default)]
    pub eintr: Vec<u8>,
    #[serde(default)]
    pub fail: Option<Fail>,
    /// simulated milliseconds each read takes
    #[serde(default)]
    pub delay: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Edit {
    /// cut the bytes at this offset
    #[serde(default)]
    pub cut: Option<usize>,
    /// replace `len` bytes at `at`
    #[serde(default)]
    pub splice: Option<Splice>,
    /// further changes, one after another
    #[serde(default)]
    pub more: Vec<Splice>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Splice {
    pub at: usize,
    pub len: usize,
    pub with: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct File {
    pub name: String,
    pub doc: usize,
    #[serde(default)]
    pub del: Delivery,
    /// 0 ordinary, 1 missing, 2 a directory, 3 open fails, 4 open fails and so does looking at it
    #[serde(default)]
    pub kind: u8,
    #[serde(default)]
    pub open_errno: u8,
    /// 1: in the other directory, `w1`
    #[serde(default)]
    pub world: u8,
    #[serde(default)]
    pub edit: Edit,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Text { doc: usize },
    Read { doc: usize, del: Delivery, #[serde(default)] edit: Edit },
    File { file: usize, abs: bool },
    /// balance and accounts reports of the journal
    Report,
    /// walk of all accounts, totals and full names
    Totals,
    /// The accounts in the order the journal lists them
    Tree,
    Find { name: String },
    /// move the journal in memory
    Move,
    /// a whole command: run() or run_command()
    Cmd { verb: String, files: Vec<usize>, abs: bool, style: u8 },
    /// rate lookup
    Rate { from: String, to: String, moment: String, oldest: String },
    /// the content of a document by calls instead of text; `how` is a set of the bits below
    Api { doc: usize, how: u8 },
    /// adds the transactions held back
    Commit,
    /// the file gets the contents of another document, in place or (`swap`) by a new file taking its name
    Rewrite { file: usize, doc: usize, swap: bool },
    Remove { file: usize },
    /// the caller changes the working directory
    Chdir(u8),
    /// clock jump (seconds, either way)
    Jump(i64),
}

/// kept account handles are used again
pub const KEPT: u8 = 1;
/// amounts are made of a number and a commodity, not parsed
pub const PARTS: u8 = 2;
/// prices are added as values, not as directives
pub const VALUES: u8 = 4;
/// all accounts are registered before the first transaction
pub const EARLY: u8 = 8;
/// transactions are built now and added later
pub const HOLD: u8 = 16;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Env {
    pub hash: u64,
    /// 0 system, 1 always move and poison, 2 immediate reuse
    pub alloc: u8,
    /// simulated clock, seconds since the epoch
    pub clock: i64,
    pub tz: String,
    /// stack of each caller thread in KiB; 0: plenty
    #[serde(default)]
    pub stack: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub env: Env,
    #[serde(default)]
    pub env2: Option<Env>,
    pub docs: Vec<Doc>,
    #[serde(default)]
    pub files: Vec<File>,
    /// caller threads, each running sessions one after another; a session is a list of operations
    pub threads: Vec<Vec<Vec<Op>>>,
    /// scheduler choices at the yield points
    #[serde(default)]
    pub sched: Vec<u8>,
    /// preempt a thread at every n-th allocation (0 = never)
    #[serde(default)]
    pub preempt: u32,
    /// faults of the command line tool run (C17)
    #[serde(default)]
    pub cli: Vec<CliFault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CliFault {
    /// "w" write to stdout, "r" read of a journal file
    pub call: String,
    /// n-th call of that kind
    pub nth: u32,
    /// "short", "eintr", "err"
    pub what: String,
    pub arg: u32,
}

/// Where things are in a rendered document.
#[derive(Clone, Debug, Default)]
pub struct Spans {
    pub xacts: Vec<XSpan>,
    /// start offset of each item
    pub items: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct XSpan {
    pub item: usize,
    pub start: usize,
    /// offset just after the blank line that ends it, if there is one
    pub done: Option<usize>,
    /// offset of the first character of each posting
    pub posts: Vec<usize>,
    /// (posting, is cost, start, end) of each number
    pub numbers: Vec<(usize, bool, usize, usize)>,
}

/// A note with at least so many spaces before the semicolon, the layout varying with the note.
fn push_note(t: &mut String, note: &str, least: usize) {
    let n = note.len();
    t.extend(std::iter::repeat(' ').take(match n % 5 {
        0 => least,
        1 => 8,
        2 => 3,
        _ => 4,
    }));
    t.push_str(match n % 7 {
        0 => ";",
        1 => ";   ",
        _ => "; ",
    });
    t.push_str(note);
}

pub fn render(doc: &Doc, path_of: &dyn Fn(usize, bool) -> String) -> (Vec<u8>, Spans) {
    let nl = if doc.crlf { "\r\n" } else { "\n" };
    let mut t = String::new();
    let mut spans = Spans::default();
    let n = doc.items.len();
    for (i, item) in doc.items.iter().enumerate() {
        let last = i + 1 == n;
        spans.items.push(t.len());
        match item {
            Item::B => t.push_str(nl),
            Item::C(c) => {
                t.push_str(c);
                t.push_str(nl);
            }
            Item::Bad(c) => {
                t.push_str(&c.replace('\n', nl));
                t.push_str(nl);
            }
            Item::I { file, abs } => {
                t.push_str("include ");
                t.push_str(&path_of(*file, *abs));
                t.push_str(nl);
            }
            Item::P(p) => {
                let sp = if p.wide { "   " } else { " " };
                t.push_str("P");
                t.push_str(sp);
                t.push_str(&p.date);
                if let Some(time) = &p.time {
                    t.push_str(sp);
                    t.push_str(time);
                }
                t.push_str(sp);
                t.push_str(&p.from);
                t.push_str(sp);
                t.push_str(&p.q.text());
                t.push_str(sp);
                t.push_str(&p.to);
                t.push_str(nl);
            }
            Item::X(x) => {
                let mut sp = XSpan {
                    item: i,
                    start: t.len(),
                    ..Default::default()
                };
                t.push_str(&x.date);
                if let Some(aux) = &x.aux {
                    t.push('=');
                    t.push_str(aux);
                }
                if let Some(p) = &x.payee {
                    t.push(' ');
                    t.push_str(p);
                }
                if let Some(h) = &x.hnote {
                    push_note(&mut t, h, 2);
                }
                t.push_str(nl);
                if let Some(note) = &x.note {
                    push_note(&mut t, note, 1);
                    t.push_str(nl);
                }
                for (pi, p) in x.posts.iter().enumerate() {
                    for _ in 0..p.indent.max(1) {
                        t.push(' ');
                    }
                    sp.posts.push(t.len());
                    t.push_str(&p.acct.join(":"));
                    let mut more = false;
                    if let Some(a) = &p.amt {
                        more = true;
                        for _ in 0..p.sep.max(2) {
                            t.push(' ');
                        }
                        let (text, off) = a.text();
                        let at = t.len() + off;
                        sp.numbers.push((pi, false, at, at + a.n.text().len()));
                        t.push_str(&text);
                    }
                    if let Some(l) = &p.lot {
                        if let Some(a) = &l.price {
                            t.push_str(" {");
                            t.push_str(&a.text().0);
                            t.push('}');
                        }
                        if let Some(d) = &l.date {
                            t.push_str(" [");
                            t.push_str(d);
                            t.push(']');
                        }
                    }
                    if let Some(c) = &p.cost {
                        t.push_str(if c.per_unit { " @" } else { " @@" });
                        if !c.tight {
                            t.push(' ');
                        }
                        let (text, off) = c.amt.text();
                        let at = t.len() + off;
                        sp.numbers.push((pi, true, at, at + c.amt.n.text().len()));
                        t.push_str(&text);
                    }
                    if let Some(note) = &p.inline {
                        t.push_str(if more { " ; " } else { "  ; " });
                        t.push_str(note);
                    }
                    for _ in 0..p.trail {
                        t.push(' ');
                    }
                    t.push_str(nl);
                    if let Some(note) = &p.note {
                        push_note(&mut t, note, 1);
                        t.push_str(nl);
                    }
                }
                if !(last && doc.open_end) {
                    for _ in 0..x.end {
                        t.push(' ');
                    }
                    t.push_str(nl);
                    sp.done = Some(t.len());
                }
                spans.xacts.push(sp);
            }
        }
    }
    if doc.no_nl && t.ends_with(nl) {
        t.truncate(t.len() - nl.len());
        if let Some(x) = spans.xacts.last_mut() {
            if x.done.map_or(false, |d| d > t.len()) {
                x.done = None;
            }
        }
    }
    (t.into_bytes(), spans)
}

pub fn apply_edit(bytes: &mut Vec<u8>, edit: &Edit) {
    for s in edit.splice.iter().chain(&edit.more) {
        let at = s.at.min(bytes.len());
        let end = (at + s.len).min(bytes.len());
        bytes.splice(at..end, s.with.iter().copied());
    }
    if let Some(c) = edit.cut {
        bytes.truncate(c);
    }
}
