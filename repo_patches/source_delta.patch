From 8a450cb130ff407a914bae339f6321931b91f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:13 +0000
Subject: [PATCH 01/21] fix: inverse of a negative amount is positive

Amount::inverse() left negative quantities unchanged, so a posting with an
omitted amount got the same sign as the rest and the transaction did not
balance. It also dereferenced the null commodity pointer.
---
 src/amount.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..498472f 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -74,15 +74,9 @@ impl Amount {
 
     /// Creates an amount with the opposite sign on the quantity.
     pub fn inverse(&self) -> Amount {
-        let new_quantity = if self.quantity.is_sign_positive() {
-            let mut x = self.quantity.clone();
-            x.set_sign_negative();
-            x
-        } else {
-            self.quantity
-        };
-
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        let mut result = *self;
+        result.invert();
+        result
     }
 
     /// Inverts the sign on the amount.
-- 
2.43.0


From 192eab4d1f51bf199e7ea5904aeae08ca67d1d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:14 +0000
Subject: [PATCH 02/21] fix: do not make references from null commodity
 pointers

Adding or multiplying amounts without a commodity made a reference from a
null pointer, which is undefined behaviour.
---
 src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 498472f..cec0983 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -117,7 +117,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -161,7 +161,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From af3a34623d595501a80e5f1785bca7ad808c3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:44 +0000
Subject: [PATCH 03/21] fix: keep accounts at a stable address

Postings and sub-accounts hold raw pointers to accounts, but the accounts
were stored by value in a HashMap and moved whenever it grew (the fourth
sibling), leaving all those pointers dangling.
---
 src/account.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..700a98a 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,8 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    /// Boxed, so that the accounts do not move in memory when the map grows.
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +40,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +101,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(&**found);
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +121,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = &**account_opt;
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +175,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| &**acc).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From f9d8cb9a9a89b005556c90542e0b1077e396958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:08 +0000
Subject: [PATCH 04/21] fix: keep commodities at a stable address

Amounts and the price history hold raw pointers to commodities, but the
commodities were stored by value in a HashMap and moved whenever it grew
(the fourth symbol), leaving all those pointers dangling.
---
 src/pool.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..8f489e4 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,8 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    /// Boxed, so that the commodities do not move in memory when the map grows.
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -77,12 +78,12 @@ impl CommodityPool {
         }
 
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        self.commodities.insert(symbol.to_string(), Box::new(c));
         // get the new address.
         let new_commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
-        let cdty_ptr = new_commodity as *const Commodity;
+        let cdty_ptr = &**new_commodity as *const Commodity;
         // log::debug!("commodity pointer: {:?} for {:?}", cdty_ptr, symbol);
         let i = self.commodity_history.add_commodity(cdty_ptr);
 
@@ -98,7 +99,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| &**c)
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +129,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            &**c
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From 501ada6f8c49683b376c6b0a057b4c4600a702b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 05/21] fix: add a transaction to the journal only when
 complete

Until now a transaction was pushed to the journal on its header line and its
posts were linked to the accounts one by one. Growing the posts collection left
dangling pointers in Account.posts (from the fifth post on), growing the
transactions collection left stale Post.xact_ptr, and an error in the middle of
a transaction left a half-read one behind.
---
 src/journal.rs | 26 +++++++++++++++++++++++++-
 src/parser.rs  | 44 ++++++++++++++++----------------------------
 2 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..eb77da5 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -35,10 +35,34 @@ impl Journal {
         }
     }
 
+    /// Adds a complete transaction and links its posts to it and to the accounts.
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        let old_location = self.xacts.as_ptr();
         self.xacts.push(xact);
         //self.xacts.len() - 1
-        self.xacts.last().unwrap()
+
+        // Growing the collection moves all the transactions.
+        let last = self.xacts.len() - 1;
+        let first_moved = if self.xacts.as_ptr() == old_location {
+            last
+        } else {
+            0
+        };
+        for xact in &mut self.xacts[first_moved..] {
+            let xact_ptr = xact as *const Xact;
+            for post in &mut xact.posts {
+                post.xact_ptr = xact_ptr;
+            }
+        }
+
+        // Add the posts to Account.posts
+        for post in &self.xacts[last].posts {
+            if !post.account.is_null() {
+                self.get_account_mut(post.account).posts.push(post);
+            }
+        }
+
+        &self.xacts[last]
     }
 
     pub fn all_posts(&self) -> Vec<&Post> {
diff --git a/src/parser.rs b/src/parser.rs
index ae56776..22b8edd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -255,18 +255,15 @@ impl<'j, T: Read> Parser<'j, T> {
             .parse_price_directive(&self.buffer);
     }
 
-    fn create_xact(&mut self) -> *const Xact {
+    fn create_xact(&mut self) -> Xact {
         let tokens = scanner::tokenize_xact_header(&self.buffer);
-        let xact = Xact::create(tokens[0], tokens[1], tokens[2], tokens[3]);
-
-        // Add xact to the journal
-        let new_ref = self.journal.add_xact(xact);
-
-        new_ref
+        Xact::create(tokens[0], tokens[1], tokens[2], tokens[3])
     }
 
     fn xact_directive(&mut self) -> Result<(), Error> {
-        let xact_ptr = self.create_xact() as *mut Xact;
+        // The xact is added to the journal only when complete.
+        let mut xact = self.create_xact();
+        let xact_ptr = &mut xact as *mut Xact;
 
         // Read the Xact contents (Posts, Comments, etc.)
         // Read until separator (empty line).
@@ -327,6 +324,9 @@ impl<'j, T: Read> Parser<'j, T> {
         // "finalize" transaction
         crate::xact::finalize(xact_ptr, &mut self.journal);
 
+        // Add xact to the journal
+        self.journal.add_xact(xact);
+
         Ok(())
     }
 
@@ -410,7 +410,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 }
 
-/// Parses Post from the buffer, adds it to the Journal and links
+/// Parses Post from the buffer, adds it to the Xact and links
 /// to Xact, Account, etc.
 fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Result<(), Error> {
     let tokens = scanner::scan_post(input);
@@ -449,27 +449,15 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
     let note = None;
 
     // Create Post, link Xact, Account, Commodity
-    let post_ref: &Post;
-    {
-        let post: Post;
-        post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
+    let post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
 
-        // add Post to Xact.
-        // let xact = journal.xacts.get_mut(xact_ptr).unwrap();
-        let xact: &mut Xact;
-        unsafe {
-            xact = &mut *(xact_ptr.cast_mut());
-        }
-        // xact.post_indices.push(post_index);
-        post_ref = xact.add_post(post);
-    }
-
-    // add Post to Account.posts
-    {
-        //let account = journal.accounts.get_mut(account_ptr).unwrap();
-        let account = journal.get_account_mut(account_ptr);
-        account.posts.push(post_ref);
+    // add Post to Xact.
+    // Account.posts is linked when the Xact is added to the Journal.
+    let xact: &mut Xact;
+    unsafe {
+        xact = &mut *(xact_ptr.cast_mut());
     }
+    xact.add_post(post);
 
     Ok(())
 }
-- 
2.43.0


From 6601e0325ab0ed77c10f161dfdc20c3a077e1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 06/21] fix: fail the load when the source can not be read

Read errors (and errors in transactions) were printed or dropped, and the load
went on with what had been read so far.
---
 src/journal.rs |  2 +-
 src/lib.rs     |  4 ++--
 src/parser.rs  | 24 +++++++++++++-----------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/journal.rs b/src/journal.rs
index eb77da5..3d28dbe 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -122,7 +122,7 @@ impl Journal {
     /// returns number of transactions parsed
     pub fn read<T: Read>(&mut self, source: T) -> usize {
         // read_textual
-        parser::read_into_journal(source, self);
+        parser::read_into_journal(source, self).expect("journal read");
 
         self.xacts.len()
     }
diff --git a/src/lib.rs b/src/lib.rs
index 8292147..cd82c07 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ fn session_read_journal_files(options: &InputOptions) -> Journal {
 /// Parse input and return the model structure.
 pub fn parse_file(file_path: &str, journal: &mut Journal) {
     let file = File::open(file_path).expect("file opened");
-    parser::read_into_journal(file, journal);
+    parser::read_into_journal(file, journal).expect("file read");
 }
 
 /// Parses text containing Ledger-style journal.
@@ -152,7 +152,7 @@ pub fn parse_file(file_path: &str, journal: &mut Journal) {
 /// journal: &mut Journal  The result are stored in the given Journal instance.
 pub fn parse_text(text: &str, journal: &mut Journal) {
     let source = Cursor::new(text);
-    parser::read_into_journal(source, journal);
+    parser::read_into_journal(source, journal).expect("text read");
 }
 
 pub fn parser_experiment() {
diff --git a/src/parser.rs b/src/parser.rs
index 22b8edd..3bb887e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -39,10 +39,10 @@ use crate::{
 pub const ISO_DATE_FORMAT: &str = "%Y-%m-%d";
 pub const ISO_TIME_FORMAT: &str = "%H:%M:%S";
 
-pub(crate) fn read_into_journal<T: Read>(source: T, journal: &mut Journal) {
+pub(crate) fn read_into_journal<T: Read>(source: T, journal: &mut Journal) -> Result<(), Error> {
     let mut parser = Parser::new(source, journal);
 
-    parser.parse();
+    parser.parse()
 }
 
 /// Parses ISO-formatted date string, like 2023-07-23
@@ -105,12 +105,13 @@ impl<'j, T: Read> Parser<'j, T> {
 
     /// Parse given input.
     /// Fill the Journal with parsed elements.
-    pub fn parse(&mut self) {
+    /// Fails if the source can not be read to the end.
+    pub fn parse(&mut self) -> Result<(), Error> {
         loop {
             match self.reader.read_line(&mut self.buffer) {
                 Err(err) => {
-                    println!("Error: {:?}", err);
-                    break;
+                    log::error!("Error: {:?}", err);
+                    return Err(err.into());
                 }
                 Ok(0) => {
                     // end of file
@@ -124,8 +125,7 @@ impl<'j, T: Read> Parser<'j, T> {
                         Ok(_) => (), // continue
                         Err(err) => {
                             log::error!("Error: {:?}", err);
-                            println!("Error: {:?}", err);
-                            break;
+                            return Err(err);
                         }
                     };
                 }
@@ -134,9 +134,11 @@ impl<'j, T: Read> Parser<'j, T> {
             // clear the buffer before reading the next line.
             self.buffer.clear();
         }
+
+        Ok(())
     }
 
-    fn read_next_directive(&mut self) -> Result<(), String> {
+    fn read_next_directive(&mut self) -> Result<(), Error> {
         // if self.buffer.is_empty() {
         //     return Ok(());
         // }
@@ -160,7 +162,7 @@ impl<'j, T: Read> Parser<'j, T> {
 
             '0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9' => {
                 // Starts with date/number.
-                let _ = self.xact_directive();
+                self.xact_directive()?;
             }
 
             ' ' | '\t' => {
@@ -271,8 +273,8 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear(); // empty the buffer before reading
             match self.reader.read_line(&mut self.buffer) {
                 Err(e) => {
-                    println!("Error: {:?}", e);
-                    break;
+                    // the incomplete xact is dropped.
+                    return Err(e.into());
                 }
                 Ok(0) => {
                     // end of file
-- 
2.43.0


From 4317fcad8a3aacbbc2c5e62863363a131f7a0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:19 +0000
Subject: [PATCH 07/21] fix: price directives can be used in a journal

Any line starting with P ended in todo!(), and the line ending would have become
a part of the symbol.
---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3bb887e..54c443f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -177,7 +177,7 @@ impl<'j, T: Read> Parser<'j, T> {
                     return Ok(());
                 }
 
-                let c = 'P';
+                let c = self.buffer.chars().next().unwrap();
                 match c {
                         // ACDNPY
                         'P' => {
@@ -239,6 +239,9 @@ impl<'j, T: Read> Parser<'j, T> {
                 _ => (),
             },
 
+            // Price, not a general directive.
+            'P' => (),
+
             // ptvy
             _ => {
                 todo!("handle")
@@ -254,7 +257,7 @@ impl<'j, T: Read> Parser<'j, T> {
         // pass on to the commodity pool
         self.journal
             .commodity_pool
-            .parse_price_directive(&self.buffer);
+            .parse_price_directive(self.buffer.trim_end());
     }
 
     fn create_xact(&mut self) -> Xact {
-- 
2.43.0


From a6bd86e18ea2afb87e16fd70df4c806ffc51d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:22 +0000
Subject: [PATCH 08/21] fix: accept a transaction header that has only the date

The line ending was taken as a part of the date.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 54c443f..61fa420 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -261,7 +261,7 @@ impl<'j, T: Read> Parser<'j, T> {
     }
 
     fn create_xact(&mut self) -> Xact {
-        let tokens = scanner::tokenize_xact_header(&self.buffer);
+        let tokens = scanner::tokenize_xact_header(self.buffer.trim_end());
         Xact::create(tokens[0], tokens[1], tokens[2], tokens[3])
     }
 
-- 
2.43.0


From a48e8a34301ea06c9530bbdeda40761dd70e65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 09/21] fix: a cost written directly after @ keeps its first
 character

---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From 05f8d59e39973672ee80c4cbf87106a86843f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 10/21] fix: a comment or trailing space on a posting is not a
 commodity

'Assets  10 ; note' got the commodity ';', 'Assets  ; note' as well, and two
spaces at the end of a posting without an amount panicked.
---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..1021543 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -191,8 +191,8 @@ fn tokenize_payee(input: &str) -> (&str, &str) {
 /// - amount_t::parse
 ///
 pub(crate) fn scan_post(input: &str) -> PostTokens {
-    // clear the initial whitespace.
-    let input = input.trim_start();
+    // clear the surrounding whitespace.
+    let input = input.trim();
 
     // todo: state = * cleared, ! pending
 
@@ -350,7 +350,7 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        if c.is_whitespace() || c == '@' || c == ';' || c.is_digit(10) || c == '-' {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From 6dcc38251fc609e50620d7fefdcfad1a15495ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:07 +0000
Subject: [PATCH 11/21] fix: finding a missing sub-account returns none instead
 of panicking

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index 700a98a..307796c 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -133,7 +133,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From ef0d8da5d30fbfda66f465544fd176ebf6a4079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 12/21] fix: a missing include file fails the load

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 61fa420..8bf59b2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -365,7 +365,7 @@ impl<'j, T: Read> Parser<'j, T> {
 
         // TODO: resolve glob, i.e *.ledger
 
-        // let mut file_found = false;
+        let mut file_found = false;
         let parent_path = filename.parent().unwrap();
         if parent_path.exists() {
             if filename.is_file() {
@@ -373,12 +373,13 @@ impl<'j, T: Read> Parser<'j, T> {
 
                 // read file.
                 parse_file(filename.to_str().unwrap(), self.journal);
+                file_found = true;
             }
         }
 
-        // if !file_found {
-        //     panic!("Include file not found");
-        // }
+        if !file_found {
+            panic!("Include file not found");
+        }
     }
 
     /// Parses the trailing note from the buffer.
-- 
2.43.0


From 8053bd186f06cf4cb912b71ba32974929e0805fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 13/21] fix: fail the load on an amount or cost that is not a
 number

It was handled as if it had been left out: the amount inferred from the other
postings, the cost ignored.
---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8bf59b2..6931ef7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -428,6 +428,10 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
 
     // create amount
     let amount_opt = parse_amount_parts(tokens.quantity, tokens.symbol, journal);
+    if amount_opt.is_none() && !(tokens.quantity.is_empty() && tokens.symbol.is_empty()) {
+        // Only an amount that is not there can be left out.
+        anyhow::bail!("Invalid amount in {:?}", input);
+    }
 
     // parse and add annotations.
     {
@@ -449,6 +453,10 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
 
     // handle cost (2nd amount)
     let cost_option = parse_cost(&tokens, &amount_opt, journal);
+    if cost_option.is_none() && !(tokens.cost_quantity.is_empty() && tokens.cost_symbol.is_empty())
+    {
+        anyhow::bail!("Invalid cost in {:?}", input);
+    }
 
     // note
     // TODO: parse note
-- 
2.43.0


From 358d19374272e403f6ed76115ee3d138c93d23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:37 +0000
Subject: [PATCH 14/21] fix: the date of a calculated rate does not depend on
 the clock

The current time replaced the least recent price date when the prices are in the
future.
---
 src/history.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..26f536d 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -16,7 +16,7 @@ use std::{
     ops::{Deref, DerefMut},
 };
 
-use chrono::{Local, NaiveDateTime};
+use chrono::NaiveDateTime;
 use petgraph::{algo::astar, stable_graph::NodeIndex, Graph};
 
 use crate::{
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent: Option<NaiveDateTime> = None;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
@@ -174,8 +174,8 @@ impl CommodityHistory {
                 .expect("price"); // , moment, oldest);
 
             // date
-            if temp_date < least_recent {
-                least_recent = temp_date;
+            if least_recent.map_or(true, |date| temp_date < date) {
+                least_recent = Some(temp_date);
             }
 
             // calculate the amount.
@@ -188,7 +188,7 @@ impl CommodityHistory {
             temp_source = temp_target;
         }
 
-        let when = least_recent;
+        let when = least_recent.expect("price date");
 
         // TODO: add to the price map.
         // self.add_price(commodity_index, datetime, price);
-- 
2.43.0


From 828b12fb36b4dabe79b4380bff64669452c6882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:10 +0000
Subject: [PATCH 15/21] fix: an implied exchange rate does not replace the
 stated costs

---
 src/xact.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..6d71b5c 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -161,8 +161,9 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
             }
         }
 
-        // if !saw_cost && top_post
-        if top_post.is_some() {
+        let saw_cost = xact.posts.iter().any(|post| post.cost.is_some());
+
+        if !saw_cost && top_post.is_some() {
             // log::debug("there were no costs, and a valid top_post")
 
             // We need a separate readonly reference for reading the amounts.
-- 
2.43.0


From d7a3033e5ad08cc6bd38de9be401e2e1a7a36548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:13 +0000
Subject: [PATCH 16/21] fix: the command line tool does not take its own name
 as the command

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..6671a8f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // Skip the program name.
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From 1f5f37abbd17c15e5e4bbefd90f0814be9a69eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:13 +0000
Subject: [PATCH 17/21] hook: read access to the price history under
 cfg(ledger_sim)

---
 src/lib.rs |  2 ++
 src/sim.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index cd82c07..b49ed64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,8 @@ pub mod pool;
 pub mod post;
 pub mod report;
 pub mod scanner;
+#[cfg(ledger_sim)]
+pub mod sim;
 pub mod utilities;
 mod value;
 pub mod xact;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..3e14d57
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,50 @@
+/*!
+ * Read access to the price history for the simulation harness.
+ *
+ * Compiled only with `--cfg ledger_sim`.
+ */
+
+use chrono::NaiveDateTime;
+
+use crate::journal::Journal;
+
+/// All the recorded price points: (commodity, price commodity, date and time, price).
+pub fn prices(journal: &Journal) -> Vec<(String, String, NaiveDateTime, String)> {
+    let history = &journal.commodity_pool.commodity_history;
+    let mut result = vec![];
+    for edge in history.edge_indices() {
+        let (from, to) = history.edge_endpoints(edge).unwrap();
+        for (when, quantity) in history.edge_weight(edge).unwrap() {
+            result.push((
+                history.get_commodity(from).symbol.to_owned(),
+                history.get_commodity(to).symbol.to_owned(),
+                *when,
+                quantity.to_string(),
+            ));
+        }
+    }
+    result
+}
+
+/// Looks up the rate between two commodities: (date and time, price, price commodity).
+pub fn find_price(
+    journal: &Journal,
+    from: &str,
+    to: &str,
+    moment: NaiveDateTime,
+    oldest: NaiveDateTime,
+) -> Option<(NaiveDateTime, String, String)> {
+    let pool = &journal.commodity_pool;
+    let from = pool.find(from)?;
+    let to = pool.find(to)?;
+
+    pool.commodity_history
+        .find_price(from, to, moment, oldest)
+        .map(|point| {
+            let symbol = match point.price.get_commodity() {
+                Some(commodity) => commodity.symbol.to_owned(),
+                None => String::new(),
+            };
+            (point.when, point.price.quantity.to_string(), symbol)
+        })
+}
-- 
2.43.0


From d31142166609c6833d9916adad82d8eb1d49607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:47 +0000
Subject: [PATCH 18/21] fix: an include cycle fails the load instead of
 overflowing the stack

---
 src/parser.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6931ef7..bbb4f50 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -18,6 +18,7 @@
 use core::panic;
 use std::{
     env,
+    fs::File,
     io::{BufRead, BufReader, Read},
     path::PathBuf,
     str::FromStr,
@@ -33,7 +34,7 @@ use crate::{
     journal::Journal,
     post::Post,
     scanner::{self, PostTokens},
-    xact::Xact, parse_file,
+    xact::Xact,
 };
 
 pub const ISO_DATE_FORMAT: &str = "%Y-%m-%d";
@@ -88,6 +89,8 @@ pub(crate) struct Parser<'j, T: Read> {
 
     reader: BufReader<T>,
     buffer: String,
+    /// The files being included, outermost first.
+    including: Vec<PathBuf>,
 }
 
 impl<'j, T: Read> Parser<'j, T> {
@@ -100,6 +103,7 @@ impl<'j, T: Read> Parser<'j, T> {
             reader,
             buffer,
             journal,
+            including: vec![],
         }
     }
 
@@ -371,8 +375,19 @@ impl<'j, T: Read> Parser<'j, T> {
             if filename.is_file() {
                 // let base = filename.file_name();
 
+                // A file that includes itself, directly or not, would never end.
+                if self.including.contains(&filename) {
+                    panic!("Include cycle: {:?}", filename);
+                }
+
                 // read file.
-                parse_file(filename.to_str().unwrap(), self.journal);
+                let file = File::open(&filename).expect("file opened");
+                let mut including = self.including.clone();
+                including.push(filename.clone());
+
+                let mut parser = Parser::new(file, self.journal);
+                parser.including = including;
+                parser.parse().expect("file read");
                 file_found = true;
             }
         }
-- 
2.43.0


From 901753bd063a068f2bd69f4dfcd3a59634c8b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:52 +0000
Subject: [PATCH 19/21] fix: an account nested too deep fails the load instead
 of overflowing the stack

---
 src/journal.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 3d28dbe..9a7bc6c 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -17,6 +17,10 @@ use crate::{
 
 // pub type XactIndex = usize;
 
+/// The deepest nesting of accounts. The account tree is walked recursively, and
+/// a tree too deep for that would overflow the stack.
+const MAX_ACCOUNT_DEPTH: usize = 500;
+
 pub struct Journal {
     pub master: Box<Account>,
 
@@ -93,6 +97,9 @@ impl Journal {
         if name.is_empty() {
             panic!("Invalid account name {:?}", name);
         }
+        if name.matches(':').count() >= MAX_ACCOUNT_DEPTH {
+            panic!("Account nested deeper than {} levels", MAX_ACCOUNT_DEPTH);
+        }
 
         // todo: expand_aliases
         // account_t * result = expand_aliases(name);
-- 
2.43.0


From c4a5c5863a896432ca7f02c36ec1cfb78c0630ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:27 +0000
Subject: [PATCH 20/21] fix: a rejected transaction records no prices

---
 src/xact.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/xact.rs b/src/xact.rs
index 6d71b5c..4e7b82b 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -199,6 +199,9 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         }
     }
 
+    // The prices are recorded only when the xact is complete.
+    let mut new_prices = vec![];
+
     // if (has_date())
     {
         for p in &mut xact.posts {
@@ -222,7 +225,8 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
                     journal.commodity_pool.exchange(amt, cost, false, moment);
                 // add price(s)
                 if let Some(new_price) = new_price_opt {
-                    journal.commodity_pool.add_price_struct(new_price);
+                    assert!(cost.get_commodity().is_some(), "A price must have a commodity");
+                    new_prices.push(new_price);
                 }
                 // TODO: this is probably redundant now?
                 // if amt.commodity_index != cost.commodity_index {
@@ -274,6 +278,10 @@ pub fn finalize(xact_ptr: *const Xact, journal: &mut Journal) {
         null_post = std::ptr::null_mut();
     }
 
+    for new_price in new_prices {
+        journal.commodity_pool.add_price_struct(new_price);
+    }
+
     // TODO: Process Commodities?
     // TODO: Process Account records from Posts.
 }
-- 
2.43.0


From d0430dd2702e0fbfd1f98579a20a3baec432d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:40 +0000
Subject: [PATCH 21/21] fix: includes nested too deep fail the load instead of
 overflowing the stack

---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index bbb4f50..35a4157 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -40,6 +40,9 @@ use crate::{
 pub const ISO_DATE_FORMAT: &str = "%Y-%m-%d";
 pub const ISO_TIME_FORMAT: &str = "%H:%M:%S";
 
+/// The deepest nesting of included files accepted.
+const MAX_INCLUDE_DEPTH: usize = 200;
+
 pub(crate) fn read_into_journal<T: Read>(source: T, journal: &mut Journal) -> Result<(), Error> {
     let mut parser = Parser::new(source, journal);
 
@@ -379,6 +382,10 @@ impl<'j, T: Read> Parser<'j, T> {
                 if self.including.contains(&filename) {
                     panic!("Include cycle: {:?}", filename);
                 }
+                // Each level takes space on the stack.
+                if self.including.len() >= MAX_INCLUDE_DEPTH {
+                    panic!("Includes nested too deep: {:?}", filename);
+                }
 
                 // read file.
                 let file = File::open(&filename).expect("file opened");
-- 
2.43.0

