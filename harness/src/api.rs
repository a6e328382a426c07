//! A program that builds parts of its journal by calls instead of text, and keeps what it was given.

use std::collections::BTreeMap;

use ledger_rs_lib::account::Account;
use ledger_rs_lib::amount::{Amount, Quantity};
use ledger_rs_lib::commodity::Commodity;
use ledger_rs_lib::journal::Journal;
use ledger_rs_lib::parser;
use ledger_rs_lib::post::Post;
use ledger_rs_lib::xact::{self, Xact};

use crate::ast::{Amt, Doc, Item, EARLY, HOLD, KEPT, PARTS, VALUES};

#[derive(Default)]
pub struct Client {
    accounts: BTreeMap<String, *const Account>,
    commodities: BTreeMap<String, *const Commodity>,
    pending: Vec<Xact>,
}

impl Client {
    fn account(&mut self, j: &mut Journal, name: &str, how: u8) -> *const Account {
        if how & KEPT != 0 {
            if let Some(a) = self.accounts.get(name) {
                return *a;
            }
        }
        let a = j.register_account(name).expect("account registered");
        self.accounts.entry(name.to_string()).or_insert(a);
        a
    }

    fn commodity(&mut self, j: &mut Journal, symbol: &str, how: u8) -> *const Commodity {
        if how & KEPT != 0 {
            if let Some(c) = self.commodities.get(symbol) {
                return *c;
            }
        }
        let c = j.commodity_pool.find_or_create(symbol, None);
        self.commodities.entry(symbol.to_string()).or_insert(c);
        c
    }

    fn amount(&mut self, j: &mut Journal, a: &Amt, how: u8) -> Amount {
        if how & PARTS == 0 {
            return parser::parse_amount(&a.text().0, j).expect("amount parsed");
        }
        let c = (!a.sym.is_empty()).then(|| self.commodity(j, &a.sym, how));
        Amount::new(Quantity::from_str(&a.n.text()).expect("number parsed"), c)
    }

    pub fn apply(&mut self, j: &mut Journal, doc: &Doc, how: u8) {
        if how & EARLY != 0 {
            for item in &doc.items {
                if let Item::X(x) = item {
                    for p in &x.posts {
                        self.account(j, &p.acct.join(":"), how);
                    }
                }
            }
        }
        for item in &doc.items {
            match item {
                Item::X(x) => {
                    let (aux, payee) = (x.aux.as_deref().unwrap_or(""), x.payee.as_deref().unwrap_or(""));
                    let mut new = Xact::create(&x.date, aux, payee, x.hnote.as_deref().unwrap_or(""));
                    for p in &x.posts {
                        let account = self.account(j, &p.acct.join(":"), how);
                        let amount = p.amt.as_ref().map(|a| self.amount(j, a, how));
                        let cost = p.cost.as_ref().map(|c| self.amount(j, &c.amt, how));
                        new.add_post(Post::new(account, std::ptr::null(), amount, cost, p.note.as_deref()));
                    }
                    self.pending.push(new);
                    if how & HOLD == 0 {
                        let new = self.pending.pop().unwrap();
                        add(j, new);
                    }
                }
                Item::P(p) => {
                    let time = p.time.as_deref().unwrap_or("00:00:00");
                    if how & VALUES != 0 {
                        let when = format!("{}T{}", p.date, time);
                        let when = chrono::NaiveDateTime::parse_from_str(&when, "%Y-%m-%dT%H:%M:%S").unwrap();
                        let price = Amt { n: p.q.clone(), sym: p.to.clone(), style: 0 };
                        let from = self.commodity(j, &p.from, how);
                        let price = self.amount(j, &price, how);
                        j.commodity_pool.add_price(from, when, price);
                    } else {
                        let line = match &p.time {
                            Some(t) => format!("P {} {} {} {} {}", p.date, t, p.from, p.q.text(), p.to),
                            None => format!("P {} {} {} {}", p.date, p.from, p.q.text(), p.to),
                        };
                        j.commodity_pool.parse_price_directive(&line);
                    }
                }
                _ => {}
            }
        }
    }

    pub fn commit(&mut self, j: &mut Journal) {
        for x in std::mem::take(&mut self.pending) {
            add(j, x);
        }
    }

    /// What was given out earlier is still what the journal holds.
    pub fn kept(&self, j: &Journal) -> Option<String> {
        for (name, a) in &self.accounts {
            let now = j.find_account(name).map_or(0, |f| f as *const Account as usize);
            if now != *a as usize {
                return Some(format!("the account registered as {:?} is not the one found now", name));
            }
            if j.get_account(*a).fullname() != name {
                return Some(format!("the account registered as {:?} calls itself {:?}", name, j.get_account(*a).fullname()));
            }
        }
        for (symbol, c) in &self.commodities {
            let now = j.commodity_pool.find(symbol).map_or(0, |f| f as *const Commodity as usize);
            if now != *c as usize {
                return Some(format!("the commodity created as {:?} is not the one found now", symbol));
            }
        }
        None
    }
}

fn add(j: &mut Journal, mut x: Xact) {
    xact::finalize(&mut x as *mut Xact as *const Xact, j);
    let (payee, posts) = (x.payee.clone(), x.posts.len());
    let n = j.xacts.len();
    let added = j.add_xact(x);
    assert!(added.payee == payee && added.posts.len() == posts, "the added transaction is returned");
    assert!(j.xacts.len() == n + 1, "one transaction is added");
}
