//! Executes a plan against the real library and records what its callers can observe.

use std::borrow::Borrow;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use ledger_rs_lib::account::Account;
use ledger_rs_lib::amount::Amount;
use ledger_rs_lib::journal::Journal;

use crate::ast::*;
use crate::dec::Dec;
use crate::sys;

#[derive(Clone, Debug, PartialEq)]
pub struct RMoney(pub Dec, pub String);

#[derive(Clone, Debug, PartialEq)]
pub struct RPost {
    pub account: String,
    pub amount: Option<RMoney>,
    pub cost: Option<RMoney>,
    pub note: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RXact {
    pub date: String,
    pub aux: Option<String>,
    pub payee: String,
    pub note: Option<String>,
    pub posts: Vec<RPost>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RAccount {
    /// path by walking the tree
    pub path: Vec<String>,
    pub fullname: String,
    pub own: Vec<RMoney>,
    pub total: Vec<RMoney>,
    pub posts: usize,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub xacts: Vec<RXact>,
    pub accounts: Vec<RAccount>,
    pub pool: usize,
    /// addresses of the commodities by symbol, as seen from amounts, costs and the pool
    pub commodities: Vec<(String, usize)>,
    pub prices: Vec<(String, String, String, Dec)>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Load(Result<(), String>),
    Report(Vec<String>, Vec<String>),
    Totals(Vec<RAccount>),
    Tree(Result<Vec<String>, String>),
    /// name, what was found: (full name, total)
    Find(String, Result<Option<(String, Vec<RMoney>)>, String>),
    Cmd(Result<Vec<String>, String>),
    Rate(String, String, Result<Option<(String, Dec, String)>, String>),
    Other,
}

#[derive(Clone, Debug, Default)]
pub struct SessionOut {
    pub evs: Vec<Ev>,
    /// after each operation, if asked for
    pub snaps: Vec<Snap>,
    pub links: Vec<Option<String>>,
    pub outside: Vec<Option<String>>,
    pub sound: Vec<Option<String>>,
    pub last: Snap,
}

#[derive(Clone, Copy, Default)]
pub struct Look {
    pub every_op: bool,
    pub links: bool,
    /// what a call leaves behind outside the journal
    pub outside: bool,
    /// links and balances agree, whatever was loaded
    pub sound: bool,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn dec_of(q: &dyn std::fmt::Display) -> Dec {
    let t = q.to_string();
    Dec::parse(&t).unwrap_or(Dec {
        m: i128::MAX,
        s: 0,
    })
}

fn money(a: &Amount) -> RMoney {
    RMoney(
        dec_of(&a.quantity),
        a.get_commodity().map(|c| c.symbol.clone()).unwrap_or_default(),
    )
}

fn moneys(list: &[Amount]) -> Vec<RMoney> {
    list.iter().map(money).collect()
}

fn acc_ref<T: Borrow<Account>>(t: &T) -> &Account {
    t.borrow()
}

pub fn walk<'a>(acc: &'a Account, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'a Account)>) {
    out.push((path.clone(), acc));
    let mut children: Vec<&Account> = acc.accounts.values().map(|a| acc_ref(a)).collect();
    children.sort_by(|a, b| a.name.cmp(&b.name));
    for c in children {
        path.push(c.name.clone());
        walk(c, path, out);
        path.pop();
    }
}

fn accounts(j: &Journal) -> Vec<RAccount> {
    let mut list = vec![];
    walk(&j.master, &mut vec![], &mut list);
    list.into_iter()
        .map(|(path, a)| RAccount {
            path,
            fullname: a.fullname().to_string(),
            own: moneys(&a.amount().amounts),
            total: moneys(&a.total().amounts),
            posts: a.posts.len(),
        })
        .collect()
}

pub fn snap(j: &Journal, syms: &BTreeSet<String>) -> Snap {
    let mut commodities: Vec<(String, usize)> = vec![];
    let mut note_cdty = |a: &Amount| match a.get_commodity() {
        Some(c) => commodities.push((c.symbol.clone(), c as *const _ as usize)),
        None => commodities.push((String::new(), 0)),
    };
    let xacts = j
        .xacts
        .iter()
        .map(|x| RXact {
            date: x.date.map(|d| d.to_string()).unwrap_or_default(),
            aux: x.aux_date.map(|d| d.to_string()),
            payee: x.payee.clone(),
            note: x.note.clone(),
            posts: x
                .posts
                .iter()
                .map(|p| {
                    if let Some(a) = &p.amount {
                        note_cdty(a);
                    }
                    if let Some(a) = &p.cost {
                        note_cdty(a);
                    }
                    RPost {
                        account: j.get_account(p.account).fullname().to_string(),
                        amount: p.amount.as_ref().map(money),
                        cost: p.cost.as_ref().map(money),
                        note: p.note.clone(),
                    }
                })
                .collect(),
        })
        .collect();
    for s in syms {
        if let Some(c) = j.commodity_pool.find(s) {
            commodities.push((format!("{}", c.symbol), c as *const _ as usize));
        } else {
            commodities.push((s.clone(), usize::MAX));
        }
    }
    Snap {
        xacts,
        accounts: accounts(j),
        pool: j.commodity_pool.len(),
        commodities,
        prices: prices(j),
    }
}

#[cfg(feature = "hooks")]
fn prices(j: &Journal) -> Vec<(String, String, String, Dec)> {
    ledger_rs_lib::sim::prices(j)
        .into_iter()
        .map(|(f, t, w, q)| (f, t, w.to_string(), dec_of(&q)))
        .collect()
}
#[cfg(not(feature = "hooks"))]
fn prices(_j: &Journal) -> Vec<(String, String, String, Dec)> {
    vec![]
}

#[cfg(feature = "hooks")]
fn rate(j: &Journal, from: &str, to: &str, moment: &str, oldest: &str) -> Option<(String, Dec, String)> {
    let t = |s: &str| chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%d %H:%M:%S").expect("moment");
    let (m, o) = (t(moment), t(oldest));
    ledger_rs_lib::sim::find_price(j, from, to, m, o).map(|(w, q, s)| (w.to_string(), dec_of(&q), s))
}
#[cfg(not(feature = "hooks"))]
fn rate(_j: &Journal, _f: &str, _t: &str, _m: &str, _o: &str) -> Option<(String, Dec, String)> {
    None
}

/// Every link leads to the object the journal holds now. Compares addresses before following any.
pub fn links(j: &Journal, syms: &BTreeSet<String>) -> Option<String> {
    let mut tree = vec![];
    walk(&j.master, &mut vec![], &mut tree);
    let accts: BTreeSet<usize> = tree.iter().map(|(_, a)| *a as *const Account as usize).collect();
    let cdtys: BTreeSet<usize> = syms
        .iter()
        .filter_map(|s| j.commodity_pool.find(s))
        .map(|c| c as *const _ as usize)
        .collect();
    let mut by_post = std::collections::BTreeMap::new();
    for (i, x) in j.xacts.iter().enumerate() {
        for (k, p) in x.posts.iter().enumerate() {
            if p.xact_ptr as usize != x as *const _ as usize {
                return Some(format!("posting {}.{} is not linked to its transaction", i, k));
            }
            if !accts.contains(&(p.account as usize)) {
                return Some(format!("posting {}.{} is not linked to an account of the journal", i, k));
            }
            for a in [&p.amount, &p.cost].into_iter().flatten() {
                if let Some(c) = a.get_commodity() {
                    if !cdtys.contains(&(c as *const _ as usize)) {
                        return Some(format!("amount of posting {}.{} is not linked to a commodity of the journal", i, k));
                    }
                }
            }
            by_post.insert(p as *const _ as usize, (i, k, p.account as usize));
        }
    }
    let mut linked = 0;
    for (path, a) in &tree {
        let mut seen = BTreeSet::new();
        for p in &a.posts {
            match by_post.get(&(*p as usize)) {
                None => return Some(format!("account {:?} has a link to a posting the journal does not hold", path)),
                Some((i, k, acc)) => {
                    if *acc != *a as *const Account as usize {
                        return Some(format!("account {:?} is linked to posting {}.{} of another account", path, i, k));
                    }
                    if !seen.insert(*p as usize) {
                        return Some(format!("account {:?} is linked twice to posting {}.{}", path, i, k));
                    }
                    linked += 1;
                }
            }
        }
        if a.fullname() != path.join(":") {
            return Some(format!("account {:?} calls itself {:?}", path, a.fullname()));
        }
    }
    if linked != by_post.len() {
        return Some(format!("{} of {} postings are linked from their account", linked, by_post.len()));
    }
    None
}

/// Transactions, accounts and commodities agree with each other; nothing is assumed about what was loaded.
fn sound(j: &Journal) -> Option<String> {
    use std::collections::BTreeMap;
    let mut tree = vec![];
    walk(&j.master, &mut vec![], &mut tree);
    let accts: BTreeSet<usize> = tree.iter().map(|(_, a)| *a as *const Account as usize).collect();
    let mut by_post = BTreeMap::new();
    let mut own: BTreeMap<usize, BTreeMap<String, Dec>> = BTreeMap::new();
    let mut all: BTreeMap<String, Dec> = BTreeMap::new();
    for (i, x) in j.xacts.iter().enumerate() {
        for (k, p) in x.posts.iter().enumerate() {
            if p.xact_ptr as usize != x as *const _ as usize {
                return Some(format!("posting {}.{} is not linked to its transaction", i, k));
            }
            if !accts.contains(&(p.account as usize)) {
                return Some(format!("posting {}.{} is not linked to an account of the journal", i, k));
            }
            for a in [&p.amount, &p.cost].into_iter().flatten() {
                if let Some(c) = a.get_commodity() {
                    let held = j.commodity_pool.find(&c.symbol).map(|h| h as *const _ as usize);
                    if held != Some(c as *const _ as usize) {
                        return Some(format!("amount of posting {}.{} is not linked to a commodity of the journal", i, k));
                    }
                }
            }
            if let Some(a) = &p.amount {
                let RMoney(d, sym) = money(a);
                let e = own.entry(p.account as usize).or_default().entry(sym.clone()).or_insert(Dec::ZERO);
                *e = e.add(d)?;
                let e = all.entry(sym).or_insert(Dec::ZERO);
                *e = e.add(d)?;
            }
            by_post.insert(p as *const _ as usize, p.account as usize);
        }
    }
    let mut linked = BTreeSet::new();
    for (path, a) in &tree {
        let me = *a as *const Account as usize;
        for p in &a.posts {
            if by_post.get(&(*p as usize)) != Some(&me) || !linked.insert(*p as usize) {
                return Some(format!("account {:?} has a wrong link to a posting", path));
            }
        }
        if let Some(b) = crate::props::cmp_amounts(own.get(&me), &moneys(&a.amount().amounts)) {
            return Some(format!("own amount of {:?}: {}", path, b));
        }
    }
    if linked.len() != by_post.len() {
        return Some(format!("{} of {} postings are linked from their account", linked.len(), by_post.len()));
    }
    crate::props::cmp_amounts(Some(&all), &moneys(&j.master.total().amounts)).map(|b| format!("total of the journal: {}", b))
}

/// The scratch directory a plan runs in; removed and made anew for each execution.
pub struct Stage {
    pub dir: PathBuf,
    pub docs: Vec<(Vec<u8>, Spans)>,
}

pub fn file_path(dir: &Path, plan: &Plan, file: usize, abs: bool) -> String {
    let Some(f) = plan.files.get(file) else {
        return "no-such-file.ledger".to_string();
    };
    if abs {
        place(dir, f).to_str().unwrap().to_string()
    } else {
        f.name.clone()
    }
}

fn place(dir: &Path, f: &File) -> PathBuf {
    if f.world == 1 {
        dir.join("w1").join(&f.name)
    } else {
        dir.join(&f.name)
    }
}

pub fn render_all(dir: &Path, plan: &Plan) -> Vec<(Vec<u8>, Spans)> {
    plan.docs
        .iter()
        .map(|d| render(d, &|f, abs| file_path(dir, plan, f, abs)))
        .collect()
}

impl Stage {
    pub fn new(dir: &Path, plan: &Plan) -> Stage {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).expect("scratch");
        let docs = render_all(dir, plan);
        for f in &plan.files {
            let path = place(dir, f);
            if f.kind == 1 {
                // not even its directory
                continue;
            }
            std::fs::create_dir_all(path.parent().unwrap()).expect("scratch");
            match f.kind {
                2 => std::fs::create_dir_all(&path).expect("scratch"),
                _ => {
                    let mut bytes = docs[f.doc].0.clone();
                    apply_edit(&mut bytes, &f.edit);
                    std::fs::write(&path, bytes).expect("scratch");
                }
            }
        }
        std::env::set_current_dir(dir).expect("scratch");
        Stage {
            dir: dir.to_path_buf(),
            docs,
        }
    }

    pub fn sim_files(&self, plan: &Plan) -> Vec<sys::SimFile> {
        use std::os::unix::fs::MetadataExt;
        plan.files
            .iter()
            .map(|f| {
                let m = std::fs::metadata(place(&self.dir, f)).ok().filter(|m| m.is_file());
                sys::SimFile {
                    dev: m.as_ref().map_or(0, |m| m.dev()),
                    ino: m.as_ref().map_or(0, |m| m.ino()),
                    size: m.as_ref().map_or(0, |m| m.len() as usize),
                    del: f.del.clone(),
                    open_err: if f.kind == 3 || f.kind == 4 {
                        sys::OPEN_ERRNOS[f.open_errno as usize % sys::OPEN_ERRNOS.len()]
                    } else {
                        0
                    },
                    stat_err: if f.kind == 4 {
                        sys::OPEN_ERRNOS[f.open_errno as usize % sys::OPEN_ERRNOS.len()]
                    } else {
                        0
                    },
                    opens: 0,
                    used: 0,
                }
            })
            .collect()
    }
}

pub fn cmd_args(dir: &Path, plan: &Plan, verb: &str, files: &[usize], abs: bool, style: u8) -> Vec<String> {
    let mut args = vec![];
    if style & 1 == 0 {
        args.push(verb.to_string());
    }
    for f in files {
        args.push("-f".to_string());
        args.push(file_path(dir, plan, *f, abs));
    }
    if style & 1 == 1 {
        args.push(verb.to_string());
    }
    args
}

/// One session: a fresh journal and a list of operations on it.
fn session(ops: &[Op], plan: &Plan, stage: &Stage, syms: &BTreeSet<String>, look: Look) -> SessionOut {
    let mut out = SessionOut::default();
    let mut journal = Some(Box::new(Journal::new()));
    #[cfg(feature = "api")]
    let mut client = crate::api::Client::default();
    for (oi, op) in ops.iter().enumerate() {
        let j = journal.as_mut().unwrap();
        let ev = match op {
            Op::Text { doc } => {
                let text = sys::bypass(|| String::from_utf8(stage.docs[*doc].0.clone()).unwrap());
                Ev::Load(guard(|| ledger_rs_lib::parse_text(&text, j)))
            }
            Op::Read { doc, del, edit } => {
                let source = sys::bypass(|| {
                    let mut bytes = stage.docs[*doc].0.clone();
                    apply_edit(&mut bytes, edit);
                    sys::SimReader {
                        bytes,
                        del: del.clone(),
                        st: Default::default(),
                    }
                });
                Ev::Load(guard(|| {
                    j.read(source);
                }))
            }
            Op::File { file, abs } => {
                let path = sys::bypass(|| file_path(&stage.dir, plan, *file, *abs));
                Ev::Load(guard(|| ledger_rs_lib::parse_file(&path, j)))
            }
            Op::Report => {
                let b = guard(|| ledger_rs_lib::report::balance_report(j));
                let a = guard(|| ledger_rs_lib::report::report_accounts(j));
                Ev::Report(
                    b.unwrap_or_else(|e| vec![format!("panic: {}", e)]),
                    a.unwrap_or_else(|e| vec![format!("panic: {}", e)]),
                )
            }
            Op::Totals => Ev::Totals(accounts(j)),
            Op::Tree => Ev::Tree(guard(|| {
                j.master.flatten_account_tree().iter().map(|a| a.fullname().to_string()).collect()
            })),
            Op::Find { name } => {
                let r = guard(|| {
                    j.find_account(name)
                        .map(|a| (a.fullname().to_string(), moneys(&a.total().amounts)))
                });
                Ev::Find(name.clone(), r)
            }
            Op::Move => {
                let old = journal.take().unwrap();
                journal = Some(Box::new(*old));
                Ev::Other
            }
            Op::Cmd { verb, files, abs, style } => {
                let args = sys::bypass(|| cmd_args(&stage.dir, plan, verb, files, *abs, *style));
                Ev::Cmd(guard(|| {
                    if style & 2 == 0 {
                        ledger_rs_lib::run(args)
                    } else {
                        ledger_rs_lib::run_command(&args.join(" "))
                    }
                }))
            }
            Op::Rate { from, to, moment, oldest } => {
                let r = guard(|| rate(j, from, to, moment, oldest));
                Ev::Rate(from.clone(), to.clone(), r)
            }
            #[cfg(feature = "api")]
            Op::Api { doc, how } => Ev::Load(guard(|| client.apply(j, &plan.docs[*doc], *how))),
            #[cfg(feature = "api")]
            Op::Commit => Ev::Load(guard(|| client.commit(j))),
            #[cfg(not(feature = "api"))]
            Op::Api { .. } | Op::Commit => panic!("built without calls"),
            Op::Rewrite { file, doc, swap } => {
                sys::bypass(|| {
                    use std::os::unix::fs::MetadataExt;
                    let path = place(&stage.dir, &plan.files[*file]);
                    let target = if *swap { path.with_extension("new") } else { path.clone() };
                    std::fs::write(&target, &stage.docs[*doc].0).expect("scratch");
                    if *swap {
                        std::fs::rename(&target, &path).expect("scratch");
                    }
                    let m = std::fs::metadata(&path).expect("scratch");
                    sys::world(|w| {
                        let f = &mut w.files[*file];
                        (f.dev, f.ino, f.size) = (m.dev(), m.ino(), m.len() as usize);
                    });
                });
                Ev::Other
            }
            Op::Remove { file } => {
                sys::bypass(|| {
                    let _ = std::fs::remove_file(place(&stage.dir, &plan.files[*file]));
                    sys::world(|w| (w.files[*file].dev, w.files[*file].ino) = (0, 0));
                });
                Ev::Other
            }
            Op::Chdir(world) => {
                sys::bypass(|| {
                    let to = if *world == 1 { stage.dir.join("w1") } else { stage.dir.clone() };
                    std::env::set_current_dir(to).expect("scratch");
                });
                Ev::Other
            }
            Op::Jump(s) => {
                sys::jump(*s);
                Ev::Other
            }
        };
        sys::event(&|| format!("op {} {}", oi, ev_text(&ev)));
        sys::bypass(|| out.evs.push(ev.clone()));
        let j = journal.as_ref().unwrap();
        if look.outside {
            let o = outside(&stage.dir);
            sys::bypass(|| out.outside.push(o));
        }
        if look.sound {
            let l = sound(j);
            sys::bypass(|| out.sound.push(l));
        }
        if look.links {
            let l = links(j, syms);
            #[cfg(feature = "api")]
            let l = l.or_else(|| client.kept(j));
            sys::bypass(|| out.links.push(l));
        }
        if look.every_op {
            let s = snap(j, syms);
            sys::bypass(|| out.snaps.push(s.clone()));
        }
    }
    out.last = snap(journal.as_ref().unwrap(), syms);
    out
}

/// What an operation that is over has left behind.
fn outside(dir: &Path) -> Option<String> {
    sys::bypass(|| {
        let (open, touched) = sys::world(|w| (w.fds.len(), w.touched.first().cloned()));
        if let Some(t) = touched {
            return Some(format!("change attempted: {}", t));
        }
        if open > 0 {
            return Some(format!("left open: {} journal files", open));
        }
        if std::env::current_dir().ok().as_deref() != Some(dir) {
            return Some("working directory changed".to_string());
        }
        None
    })
}

/// Everything in the scratch directory: name -> (kind and mode, time of change, bytes).
pub fn tree(dir: &Path) -> std::collections::BTreeMap<String, (u32, i64, i64, Vec<u8>)> {
    use std::os::unix::fs::MetadataExt;
    fn go(base: &Path, at: &Path, out: &mut std::collections::BTreeMap<String, (u32, i64, i64, Vec<u8>)>) {
        for e in std::fs::read_dir(at).into_iter().flatten().flatten() {
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let bytes = if m.is_file() { std::fs::read(&p).unwrap_or_default() } else { vec![] };
            let name = p.strip_prefix(base).unwrap_or(&p).to_string_lossy().into_owned();
            out.insert(name, (m.mode(), m.mtime(), m.mtime_nsec(), bytes));
            if m.is_dir() {
                go(base, &p, out);
            }
        }
    }
    let mut out = Default::default();
    go(dir, dir, &mut out);
    out
}

pub fn descriptors() -> BTreeSet<String> {
    std::fs::read_dir("/proc/self/fd")
        .into_iter()
        .flatten()
        .flatten()
        .filter_map(|e| {
            let to = std::fs::read_link(e.path()).ok()?;
            (!to.starts_with("/proc")).then(|| format!("{:?} {:?}", e.file_name(), to))
        })
        .collect()
}

/// Executes the sessions of the plan `rounds` times in one thread, keeping nothing: blocks and bytes held after each round.
pub fn rounds(dir: &Path, plan: &Plan, env: &Env, rounds: usize) -> Result<Vec<(i64, i64)>, String> {
    std::env::set_var("TZ", if env.tz.is_empty() { "UTC" } else { &env.tz });
    let stage = std::sync::Arc::new(Stage::new(dir, plan));
    let files = stage.sim_files(plan);
    let plan2 = plan.clone();
    let body: Box<dyn FnOnce() -> Vec<(i64, i64)> + Send> = Box::new(move || {
        let mut held = sys::bypass(|| Vec::with_capacity(rounds));
        for _ in 0..rounds {
            for ops in plan2.threads.iter().flatten() {
                let mut j = Journal::new();
                for op in ops {
                    bare_op(op, &plan2, &stage, &mut j);
                }
            }
            use std::sync::atomic::Ordering::SeqCst;
            let now = (sys::BLOCKS.load(SeqCst), sys::BYTES.load(SeqCst));
            held.push(now);
            sys::event(&|| format!("round {:?}", now));
        }
        held
    });
    sys::start(env.hash, env.clock, files);
    let mut outs = sys::run_threads(vec![body], vec![], 0, env.alloc, 0);
    sys::stop();
    outs.remove(0)
}

fn bare_op(op: &Op, plan: &Plan, stage: &Stage, j: &mut Journal) {
    let _ = match op {
        Op::Text { doc } => guard(|| ledger_rs_lib::parse_text(std::str::from_utf8(&stage.docs[*doc].0).unwrap(), j)),
        Op::Read { doc, del, edit } => {
            let mut bytes = stage.docs[*doc].0.clone();
            apply_edit(&mut bytes, edit);
            let source = sys::SimReader {
                bytes,
                del: del.clone(),
                st: Default::default(),
            };
            guard(|| {
                j.read(source);
            })
        }
        Op::File { file, abs } => guard(|| ledger_rs_lib::parse_file(&file_path(&stage.dir, plan, *file, *abs), j)),
        Op::Report => guard(|| {
            ledger_rs_lib::report::balance_report(j);
            ledger_rs_lib::report::report_accounts(j);
        }),
        Op::Totals => guard(|| {
            accounts(j);
        }),
        Op::Find { name } => guard(|| {
            j.find_account(name).map(|a| a.total());
        }),
        Op::Cmd { verb, files, abs, style } => {
            let args = cmd_args(&stage.dir, plan, verb, files, *abs, *style);
            guard(|| {
                if style & 2 == 0 {
                    ledger_rs_lib::run(args);
                } else {
                    ledger_rs_lib::run_command(&args.join(" "));
                }
            })
        }
        _ => Ok(()),
    };
}

fn ev_text(ev: &Ev) -> String {
    match ev {
        Ev::Load(r) => format!("load {}", if r.is_ok() { "ok" } else { "failed" }),
        Ev::Report(a, b) => format!("report {:x}", crate::rng::hash_bytes(a.len() as u64, (a.join("\n") + &b.join("\n")).as_bytes())),
        Ev::Totals(t) => format!("totals {}", t.len()),
        Ev::Tree(t) => format!("tree {:?}", t),
        Ev::Find(n, r) => format!("find {:?} {}", n, matches!(r, Ok(Some(_)))),
        Ev::Cmd(r) => match r {
            Ok(l) => format!("cmd {:x}", crate::rng::hash_bytes(0, l.join("\n").as_bytes())),
            Err(_) => "cmd failed".to_string(),
        },
        Ev::Rate(a, b, r) => format!("rate {} {} {:?}", a, b, r),
        Ev::Other => "-".to_string(),
    }
}

fn env_vars() -> Vec<(std::ffi::OsString, std::ffi::OsString)> {
    let mut v: Vec<_> = std::env::vars_os().collect();
    v.sort();
    v
}

pub struct ArmOut {
    /// difference in the scratch directory, descriptors or environment
    pub changed: Option<String>,
    /// per thread, per session
    pub threads: Vec<Vec<SessionOut>>,
    pub files: Vec<sys::SimFile>,
    pub stage_docs: Vec<(Vec<u8>, Spans)>,
}

/// Executes all threads of the plan in the given environment.
pub fn run_arm(dir: &Path, plan: &Plan, env: &Env, syms: &BTreeSet<String>, look: Look) -> Result<ArmOut, String> {
    std::env::set_var("TZ", if env.tz.is_empty() { "UTC" } else { &env.tz });
    let stage = std::sync::Arc::new(Stage::new(dir, plan));
    let files = stage.sim_files(plan);
    let shared = std::sync::Arc::new((plan.clone(), syms.clone()));
    let mut bodies: Vec<Box<dyn FnOnce() -> Vec<SessionOut> + Send>> = vec![];
    for t in 0..plan.threads.len() {
        let (stage, shared) = (stage.clone(), shared.clone());
        bodies.push(Box::new(move || {
            let (plan, syms) = (&shared.0, &shared.1);
            plan.threads[t]
                .iter()
                .map(|ops| session(ops, plan, &stage, syms, look))
                .collect()
        }));
    }
    let before = look.outside.then(|| (tree(dir), descriptors(), env_vars()));
    sys::start(env.hash, env.clock, files);
    let outs = sys::run_threads(bodies, plan.sched.clone(), plan.preempt, env.alloc, env.stack as usize);
    let files = sys::stop();
    let changed = before.and_then(|(t, d, e)| {
        let now = tree(dir);
        if let Some((k, _)) = now.iter().find(|(k, v)| t.get(*k) != Some(*v)) {
            return Some(format!("{} was made or changed", k));
        }
        if let Some(k) = t.keys().find(|k| !now.contains_key(*k)) {
            return Some(format!("{} is gone", k));
        }
        if let Some(x) = descriptors().difference(&d).next() {
            return Some(format!("left open: {}", x));
        }
        (env_vars() != e).then(|| "environment changed".to_string())
    });
    let mut threads = vec![];
    for o in outs {
        threads.push(o?);
    }
    Ok(ArmOut {
        changed,
        threads,
        files,
        stage_docs: stage.docs.clone(),
    })
}
