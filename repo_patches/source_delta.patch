From 2e870fa1faf3d60c12472a86b7f2707d02347730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:45 +0000
Subject: [PATCH 01/30] fix: trim the whitespace left in front of a comment

A line was trimmed before its comment was removed, so `every Monday  // x`,
`by 2020/12/25  // x` and `starting 2019/10/20  // x` (all in the README) were
rejected, and an indented comment line inside an envelope panicked.
---
 src/ledger/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..c433f5f 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -71,7 +71,7 @@ impl Ledger {
         // split lines
         let lines = s.lines();
         for mut line in lines {
-            line = utils::remove_comments(line.trim_end());
+            line = utils::remove_comments(line).trim_end();
 
             // if the first character of this line is whitespace, it is part of the current chunk.
             // if there is no first character, nothing happens
-- 
2.43.0


From 6890cfb69d421437a458e349ace71b3b1a2c684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:45 +0000
Subject: [PATCH 02/30] fix: count the inferred amount of an account's first
 posting in the balance

When the first posting of an account had a blank amount, the balance report
started that account at zero instead of at the inferred amount.
---
 src/ledger/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index c433f5f..f017b50 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -242,12 +242,12 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
+                    // key's value. otherwise, use an AmountPool from the entry's inferred amount.
                     if let Some(a) = posting_amount {
                         totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
                     } else {
-                        totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
+                        let inferred = entry.get_blank_amount()?.unwrap_or_else(Amount::zero);
+                        totals_map.insert(posting_account.to_owned(), AmountPool::from(inferred));
                     }
                 }
             }
-- 
2.43.0


From c7b449675f151a54eb63e44a12dfc859e5fdced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 03/30] fix: don't count envelope postings as money in the
 balance report

Moving 50 into an envelope of an account made the account's balance grow by 50.
---
 src/ledger/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f017b50..d9ac79a 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -224,6 +224,11 @@ impl Ledger {
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
             for posting in entry.get_postings() {
+                // envelope postings only set money aside; they don't change what's in the account
+                if posting.is_envelope() {
+                    continue;
+                }
+
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From eca346c04c9b43f866d6563b9e38c2dc7d25d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 04/30] fix: don't count envelope postings as money in the
 register

A `move to envelopes` entry was listed as money coming into the account, and
the running total grew by it.
---
 src/entry.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..53be97a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -424,6 +424,11 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut focused_amount = AmountPool::new();
 
             for p in &self.postings {
+                // envelope postings only set money aside; they don't move it between accounts
+                if p.is_envelope() {
+                    continue;
+                }
+
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
-- 
2.43.0


From 305497542a92627a593fcf9c54e717ef242e9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 05/30] fix: put a refund back into its envelope instead of
 taking it out

The amount to move is the minimum of the absolute values of both sums, as the
comment says, but the sum of the linked accounts was used with its sign.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..6ede7b3 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -721,6 +721,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From 892ca3a0985bdf4c97a6a0b6dc180b6889db62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:46 +0000
Subject: [PATCH 06/30] fix: don't panic when inferring an envelope movement
 from a converted amount

The converted amount kept its foreign symbol, so adding it to the sum in the
native currency hit the symbol assertion.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6ede7b3..0fe58a6 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -700,6 +700,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = self.amount.symbol.clone();
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From 3b3f0b4f3609cf3d2b395df856236a7e2af45be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:50 +0000
Subject: [PATCH 07/30] fix: leave envelope postings out of a blank posting's
 inferred amount

An entry with `assets:checking -50`, a blank `expenses:groceries` and
`envelope assets:checking food -50` inferred 100 for the groceries.
---
 src/entry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 53be97a..e029a6c 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,7 +222,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -242,7 +242,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
                 // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
@@ -282,7 +282,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
-        for posting in &self.postings {
+        for posting in self.postings.iter().filter(|p| p.is_classic()) {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
                 // if so, add its symbol to the set if it exists
@@ -373,7 +373,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
             let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
-- 
2.43.0


From b023fa84db0a707be6dc7fa05309cf7009274535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:50 +0000
Subject: [PATCH 08/30] fix: reject an entry whose only posting is blank
 instead of panicking

---
 src/entry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index e029a6c..c38c9a1 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -301,6 +301,13 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             }
         }
 
+        // there must be something to infer a blank amount from
+        if blank_amounts > 0 && self.postings.iter().filter(|p| p.is_classic()).count() < 2 {
+            return Err(ValidationError::default()
+                .set_message("silverfox can't infer the amount of a blank posting when it's the only posting")
+                .set_context(context));
+        }
+
         // if there's a blank amount but the currencies aren't consistent, we can't infer the
         // blank's amount; there's a way around this that will be worked out in the future, but for
         // now it will be unsupported: TODO
-- 
2.43.0


From 34cab83863520ea8422d26aa1cec46e88fdb5cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 09/30] fix: report a missing status instead of panicking

An entry header with nothing after its date indexed past the end of its tokens.
---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index c38c9a1..e4479f9 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,7 +177,7 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let status = header_tokens.get(1).unwrap_or(&"").parse::<EntryStatus>()?;
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
-- 
2.43.0


From f2cd312dd2414c5da52340f512b3f17373ce8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 10/30] fix: report an unclosed payee bracket instead of
 panicking

A header such as `2020/01/01 * a] b [c` sliced backwards.
---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index e4479f9..ce54851 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -182,7 +182,7 @@ impl Entry {
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|&j| j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From 6a2a00ce7082b8eeb3e286fd0732414b0270bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 11/30] fix: reject entries that aren't balanced

The documentation of this validation says that an entry is only valid when the
sum of its postings equals zero, but that was never checked. Entries that mix
currencies are still left alone, since their worth can't always be compared.
---
 src/entry.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index ce54851..7810599 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -315,6 +315,28 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             return Err(ValidationError::default().set_message("silverfox can't infer the amount of a blank posting when other postings have mixed currencies").set_context(context));
         }
 
+        // if every amount is given and they're all in the same currency, they need to balance
+        // (give or take the error that comes from adding floating-point numbers)
+        if blank_amounts == 0 && !self.has_mixed_currencies() {
+            let mut sum = 0.0;
+            let mut tolerance = 0.000_000_005;
+            for amount in self
+                .postings
+                .iter()
+                .filter(|p| p.is_classic())
+                .filter_map(|p| p.get_amount())
+            {
+                sum += amount.mag;
+                tolerance += amount.mag.abs() * 1e-14;
+            }
+
+            if sum.abs() > tolerance {
+                return Err(ValidationError::default()
+                    .set_message("this entry isn't balanced; its postings need to add up to zero")
+                    .set_context(context));
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 1a749995e8f15875fbdf7f3a7e96489c6d5c2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 12/30] fix: find the last due date across months of different
 lengths

With an envelope due every 31st, any money put into it made silverfox panic in
March (there's no February 31st), and in February its last due date was said to
be January 28th.
---
 src/envelope.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 0fe58a6..120fda9 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,8 +211,16 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                // the next date might have been moved to the end of a short month, so go back to the
+                // day that's actually wanted
+                Self::Monthly(day) => Some(Self::with_day_or_last(
+                    Self::subtract_months(next_date, 1),
+                    *day,
+                )),
+                Self::Bimonthly(d) => Some(Self::with_day_or_last(
+                    Self::subtract_months(next_date, 2),
+                    d.day(),
+                )),
                 Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
                 _ => None,
             }
@@ -236,7 +244,14 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        let first = NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, 1).unwrap();
+        Self::with_day_or_last(first, date.day())
+    }
+
+    /// Returns the given day in the date's month, or the month's last date if it's shorter than that
+    fn with_day_or_last(date: NaiveDate, day: u32) -> NaiveDate {
+        date.with_day(day)
+            .unwrap_or_else(|| Self::get_last_date_of_month(date))
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
-- 
2.43.0


From 9d9d7d841f9dd3a1f79a266f87e6efdc718be3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:52 +0000
Subject: [PATCH 13/30] fix: treat a bimonthly due date as passed on the due
 date itself

Every other frequency looks for the next due date strictly after today.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 120fda9..ec3c26d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -297,7 +297,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From 303708c745c973478f821f3b84d9bfdfd7f53e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:52 +0000
Subject: [PATCH 14/30] fix: find the due dates of annual envelopes beyond
 their first year

Only one year was ever added to the starting date, so an envelope that started
two years ago was due in the past and never filled again. Starting on February
29th panicked.
---
 src/envelope.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index ec3c26d..05eebe5 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -221,7 +221,7 @@ impl Frequency {
                     Self::subtract_months(next_date, 2),
                     d.day(),
                 )),
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::with_year_or_last(*d, next_date.year() - 1)),
                 _ => None,
             }
         } else {
@@ -254,6 +254,12 @@ impl Frequency {
             .unwrap_or_else(|| Self::get_last_date_of_month(date))
     }
 
+    /// Returns the date in the given year, or the last date of its month if it doesn't exist then
+    fn with_year_or_last(date: NaiveDate, year: i32) -> NaiveDate {
+        let first = NaiveDate::from_ymd_opt(year, date.month(), 1).unwrap();
+        Self::with_day_or_last(first, date.day())
+    }
+
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
@@ -318,11 +324,12 @@ impl Frequency {
                 }
             }
             Self::Annually(starting_date) => {
-                if starting_date > &today {
-                    Some(*starting_date)
-                } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                let mut next = *starting_date;
+                while next <= today {
+                    next = Self::with_year_or_last(*starting_date, next.year() + 1);
                 }
+
+                Some(next)
             }
         }
     }
-- 
2.43.0


From 24f56b2ef0bfe1776c0473e681001af1c256072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:52 +0000
Subject: [PATCH 15/30] fix: use the starting date of a biweekly envelope when
 it's still ahead

An envelope starting within the next two weeks was said to be due two weeks
after its starting date.
---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 05eebe5..a2cfbc4 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -288,6 +288,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
-- 
2.43.0


From 9cc58c35e1c2dc3d64425f2385a4ce780b92ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:52 +0000
Subject: [PATCH 16/30] fix: return to the original directory after reading a
 journal file

With `-f dir/journal`, entries couldn't be appended to the journal and the csv
file wasn't found, and after including `dir/file` any further includes were
looked for inside of `dir`.
---
 src/ledger/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index d9ac79a..ec2349d 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -57,10 +57,18 @@ impl Ledger {
 
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
+        let original_dir = std::env::current_dir();
 
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
-        self.add_from_str(&s)
+        let result = self.add_from_str(&s);
+
+        // change back, because any other relative paths are relative to where we came from
+        if let Ok(d) = original_dir {
+            std::env::set_current_dir(d).unwrap_or(());
+        }
+
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From 3a6bc41731c057029a5124a1638ba5d40e9ce7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:53 +0000
Subject: [PATCH 17/30] fix: don't fill an envelope twice a day when entries
 aren't in date order

An entry with another date after today's `move to envelopes` entry made
silverfox forget that the envelope had been filled today already.
---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index a2cfbc4..570a88f 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -795,7 +795,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        // entries aren't necessarily in order of date. once the envelope has been affected today, an
+        // entry with any other date doesn't change that
+        if self.last_transaction_date != Local::now().date_naive() {
+            self.last_transaction_date = date;
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 7a546e6902faedff05aff69cc2f509841369e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:53 +0000
Subject: [PATCH 18/30] fix: don't leave the journal half-imported or
 unreadable

Entries were written before they were processed, one at a time, and without the
validation that's done when reading them. A csv file with a bad record left the
records before it in the journal (and they were duplicated on the next try), and
a record with an undefined account or an unclosed bracket in its description
made every command fail from then on.
---
 src/ledger/mod.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index ec2349d..f561d1b 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -189,19 +189,36 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
-    fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
+    /// Adds the entries to the Ledger, then appends them to the file of the Ledger. If there's an
+    /// issue with any of the entries, none of them are written.
+    fn append_entries(&mut self, entries: Vec<Entry>) -> Result<(), SilverfoxError> {
+        let mut text = String::new();
+        for entry in entries {
+            let parsable = entry.as_parsable(&self.date_format);
+
+            // don't write anything that silverfox won't be able to read back
+            Entry::parse(
+                &parsable,
+                &self.date_format,
+                self.decimal_symbol,
+                &self.accounts.keys().collect(),
+            )?;
+
+            text.push('\n');
+            text.push_str(&parsable);
+            self.add_entry(entry)?;
+        }
+
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
+        if let Err(e) = file.write_all(text.as_bytes()) {
             return Err(SilverfoxError::Basic(format!("{e}")));
         }
 
-        self.add_entry(entry)
+        Ok(())
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
@@ -307,7 +324,7 @@ impl Ledger {
             Some(String::from("automatically generated by silverfox")),
         );
 
-        self.append_entry(entry)
+        self.append_entries(vec![entry])
     }
 
     pub fn import_csv(
@@ -323,16 +340,9 @@ impl Ledger {
             CsvImporter::from_file(csv_file, account_set)
         }?;
 
-        for result in imp {
-            match result {
-                Ok(e) => {
-                    self.append_entry(e)?;
-                }
-                Err(e) => return Err(e),
-            }
-        }
+        let entries = imp.collect::<Result<Vec<Entry>, SilverfoxError>>()?;
 
-        Ok(())
+        self.append_entries(entries)
     }
 
     /// Display a register of all transactions from `begin_date` (inclusive) to `end_date` (also
-- 
2.43.0


From d37793bce1a839fe40d8cb0734fd59694586a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:53 +0000
Subject: [PATCH 19/30] fix: report that a register couldn't be displayed
 instead of panicking

---
 src/flags.rs      | 4 +++-
 src/ledger/mod.rs | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..0c79d7e 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,9 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => {
+                ledger.display_register(self.begin_date, self.end_date, None)?
+            }
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f561d1b..b21daa7 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -353,7 +353,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -361,7 +361,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From 58fc589f552272bcd9dcdf78b6eef1e1a8660db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:53 +0000
Subject: [PATCH 20/30] fix: report a blank decimal_symbol rule instead of
 panicking

---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..dd96242 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -291,7 +291,7 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    if rule_value.len() != 1 {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
-- 
2.43.0


From 3091fe509a689a08249fdb406f56a7fda3ad57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:54 +0000
Subject: [PATCH 21/30] fix: don't panic on a rule name that isn't plain ASCII

The index of a character was used as the index of a byte.
---
 src/importer.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index dd96242..db64192 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -196,9 +196,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -219,9 +219,8 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
-            i
-        } else {
+        // the first token is the rule name, the rest of the line is the value
+        let Some((rule_name, rule_value)) = line.split_once(char::is_whitespace) else {
             return Err(SilverfoxError::from(ParseError {
                 message: Some(format!(
                     "this rule has no value. use `-` if you want to discard a value:\n\n{} -",
@@ -231,13 +230,7 @@ impl Rules {
             }));
         };
 
-        // the first token is the rule name
-        let rule_name = &line[..split_index];
-
-        // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        let rule_value = rule_value.trim_start().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
-- 
2.43.0


From d211ea38409f691681710dbbc3d7d3cf1ccfd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:48 +0000
Subject: [PATCH 22/30] fix: report an envelope posting in a currency the
 envelope can't hold instead of panicking

---
 src/envelope.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 570a88f..640a638 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -633,14 +633,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -654,10 +653,24 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    // an envelope only holds money of its own currency
+                    if amount.symbol != self.amount.symbol {
+                        let message = format!(
+                            "the envelope `{}` in `{}` can't hold the currency used by this envelope posting",
+                            self.name, self.account
+                        );
+
+                        return Err(ProcessingError::default()
+                            .set_message(&message)
+                            .set_context(&entry.as_full_string()));
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 71627bd1550aaaa9a16f2c367a8870ed7334a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:18 +0000
Subject: [PATCH 23/30] fix: don't append a move that's only the error of a
 floating-point sum

---
 src/amount.rs     | 2 +-
 src/ledger/mod.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index bba4973..08a58ff 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -75,7 +75,7 @@ impl Amount {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
     }
 
-    fn rounded_mag(&self) -> f64 {
+    pub fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
 }
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index b21daa7..ba5ead2 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -301,10 +301,10 @@ impl Ledger {
             postings.append(&mut account.get_filling_postings())
         }
 
-        // remove zero-magnitude postings, they're useless
+        // remove zero-magnitude postings (including those that'd be written as zero), they're useless
         postings.retain(|p| {
             if let Some(a) = p.get_amount() {
-                a.mag != 0.0
+                a.rounded_mag() != 0.0
             } else {
                 false
             }
-- 
2.43.0


From d086c850b70849051e3f884497ee95da8f06b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:20 +0000
Subject: [PATCH 24/30] fix: an envelope whose only due date has passed isn't
 due on its starting date

---
 src/envelope.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 640a638..cebb7d7 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -911,13 +911,10 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return self.freq.get_next_due_date();
         };
 
-        let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
-            d
-        } else {
-            return Some(starting_date);
-        };
-
-        Some(starting_date.max(freq_next_date))
+        // if nothing's due anymore (or ever), there's no next due date, wherever it started
+        self.freq
+            .get_next_due_date()
+            .map(|freq_next_date| starting_date.max(freq_next_date))
     }
 
     pub fn get_freq(&self) -> &Frequency {
-- 
2.43.0


From cf8ac5834758fa8cb8a77174ef24bf67c2ecbce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:42 +0000
Subject: [PATCH 25/30] fix: report a file that includes itself instead of
 overflowing the stack

---
 src/importer.rs   | 19 ++++++++++++++++++-
 src/ledger/mod.rs | 15 +++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index db64192..797c858 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -96,6 +96,9 @@ struct Rules {
     skip: i32,
     status: String,
     subrules: Vec<Subrules>,
+
+    /// The included files that are being read at the moment, each included by the one before it
+    open_files: Vec<PathBuf>,
 }
 
 impl Default for Rules {
@@ -116,6 +119,7 @@ impl Default for Rules {
             skip: 1,
             status: String::from("~"),
             subrules: Default::default(),
+            open_files: Default::default(),
         }
     }
 }
@@ -134,7 +138,20 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        // a file that includes itself would never end
+        let full_path = fs::canonicalize(rules_file).unwrap_or_else(|_| rules_file.to_path_buf());
+        if self.open_files.contains(&full_path) {
+            return Err(SilverfoxError::Basic(format!(
+                "this file includes itself: {}",
+                rules_file.display()
+            )));
+        }
+
+        self.open_files.push(full_path);
+        let result = self.add_from_str(&s);
+        self.open_files.pop();
+
+        result
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index ba5ead2..a58dfbd 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -23,6 +23,9 @@ pub struct Ledger {
     accounts: HashMap<String, Account>,
     default_currency: String,
     decimal_symbol: char,
+
+    /// The files that are being read at the moment, each included by the one before it
+    open_files: Vec<PathBuf>,
 }
 
 impl Ledger {
@@ -35,6 +38,7 @@ impl Ledger {
             accounts: HashMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
+            open_files: Vec::new(),
         }
     }
 
@@ -55,6 +59,16 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        // a file that includes itself would never end
+        let full_path = fs::canonicalize(file_path).unwrap_or_else(|_| file_path.to_path_buf());
+        if self.open_files.contains(&full_path) {
+            return Err(SilverfoxError::Basic(format!(
+                "this file includes itself: {}",
+                file_path.display()
+            )));
+        }
+        self.open_files.push(full_path);
+
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
         let original_dir = std::env::current_dir();
@@ -62,6 +76,7 @@ impl Ledger {
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
         let result = self.add_from_str(&s);
+        self.open_files.pop();
 
         // change back, because any other relative paths are relative to where we came from
         if let Ok(d) = original_dir {
-- 
2.43.0


From 70ac09d132bb6d91fa278343f9b1471a27c61903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:04 +0000
Subject: [PATCH 26/30] fix: report a date format that dates can't be written
 with instead of panicking

---
 src/ledger/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index a58dfbd..7d1bd2f 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -9,6 +9,7 @@ use chrono::{Local, NaiveDate};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fmt::Formatter;
+use std::fmt::Write as _;
 use std::fs;
 use std::io::prelude::*;
 use std::path::{Path, PathBuf};
@@ -155,6 +156,15 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // make sure that a date can be written with this format, which isn't so if it's invalid
+            // or asks for a time
+            if write!(&mut String::new(), "{}", NaiveDate::default().format(d)).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    context: Some(d.to_string()),
+                    message: Some("dates can't be written with this date format".to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From 44815464c4c171da8c9b5e9e89b25e4e2cf7463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:01 +0000
Subject: [PATCH 27/30] fix: don't take `%%` for a reference to a column
 without a name

---
 src/importer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/importer.rs b/src/importer.rs
index 797c858..f043397 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -492,6 +492,11 @@ impl Rules {
         let mut result = String::from(s);
 
         for (v_name, v_value) in variables.iter() {
+            // a column without a name can't be referred to; `%%` isn't a variable
+            if v_name.is_empty() {
+                continue;
+            }
+
             result = result.replace(format!("%{v_name}%").as_str(), v_value);
         }
 
-- 
2.43.0


From 5d315e7e36d18aece0a78281029b53b170b5eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 28/30] fix: move exactly the amount that's written, so that a
 second run moves nothing

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index cebb7d7..9e1406d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -887,7 +887,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     /// Returns a posting with this Envelope's fill amount for the day. `account` is passed so that
     /// the program can determine how much money we have available.
     pub fn get_filling_posting(&self, account_available_value: &AmountPool) -> EnvelopePosting {
-        let amount = self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+        let mut amount =
+            self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+
+        // move exactly what'll be written, or else the rest would be moved by the next run
+        amount.mag = amount.rounded_mag();
 
         EnvelopePosting::new(self.account.clone(), amount, self.name.clone())
     }
-- 
2.43.0


From 2f6f8318f626e03951985f74bdaef91e3f41f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:12 +0000
Subject: [PATCH 29/30] fix: take the values of a CSV record as they are
 instead of looking for variables in them

---
 src/importer.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index f043397..757ad7f 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -489,21 +489,48 @@ impl Rules {
     }
 
     fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
-        let mut result = String::from(s);
+        let mut result = String::new();
+        let mut rest = s;
 
-        for (v_name, v_value) in variables.iter() {
-            // a column without a name can't be referred to; `%%` isn't a variable
-            if v_name.is_empty() {
-                continue;
-            }
+        // values are taken as they are; if one of them looks like a variable, it still isn't one
+        while let Some(i) = rest.find('%') {
+            result.push_str(&rest[..i]);
+            rest = &rest[i..];
+
+            if let Some((value, after)) = Self::split_variable(rest, variables) {
+                result.push_str(value);
+                rest = after;
+            } else {
+                result.push('%');
+                rest = &rest[1..];
 
-            result = result.replace(format!("%{v_name}%").as_str(), v_value);
+                // `%%` is a literal %
+                if Self::split_variable(rest, variables).is_none() {
+                    rest = rest.strip_prefix('%').unwrap_or(rest);
+                }
+            }
         }
 
-        result = result.replace("%%", "%"); // literal %
+        result.push_str(rest);
 
         result
     }
+
+    /// If `s` starts with a variable, returns the variable's value and what comes after it.
+    fn split_variable<'a>(
+        s: &'a str,
+        variables: &'a HashMap<String, String>,
+    ) -> Option<(&'a str, &'a str)> {
+        variables
+            .iter()
+            // a column without a name can't be referred to; `%%` isn't a variable
+            .filter(|(name, _)| !name.is_empty())
+            .filter_map(|(name, value)| {
+                let after = s.strip_prefix('%')?.strip_prefix(name)?.strip_prefix('%')?;
+                Some((value.as_str(), after))
+            })
+            .min_by_key(|(_, after)| after.len())
+    }
 }
 
 #[derive(Clone, Debug, Default, PartialEq)]
-- 
2.43.0


From 4be2dae441bb0b02975ae547f4e00ead24a77c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:17 +0000
Subject: [PATCH 30/30] fix: don't take a date for an amount whose currency
 would be a comment

---
 src/amount.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/amount.rs b/src/amount.rs
index 08a58ff..2f807ac 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -54,6 +54,16 @@ impl Amount {
             .filter(|&c| Self::is_symbol_char(c, decimal_symbol))
             .collect::<String>();
         let trimmed_raw_sym = raw_sym.trim();
+
+        // in a journal, this would be the start of a comment (it isn't in what was parsed, or else
+        // it would have been removed, so something like a date must have been taken for an amount)
+        if trimmed_raw_sym.contains("//") {
+            return Err(ParseError {
+                context: Some(s.to_string()),
+                message: Some("this amount isn't valid".to_string()),
+            });
+        }
+
         let symbol = match trimmed_raw_sym.len() {
             0 => None,
             _ => Some(trimmed_raw_sym.to_string()),
-- 
2.43.0

