"""The planted bugs: edits of /repo/src and the demonstration of each."""
SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("c01-future-entries", "C01", "an entry dated after today",
  "balances leave out entries dated in the future", [("ledger/mod.rs",
  "        for entry in &self.entries {\n            for posting in entry.get_postings() {\n",
  "        let today = Local::now().date_naive();\n        for entry in self.entries.iter().filter(|e| e.get_date() <= &today) {\n            for posting in entry.get_postings() {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income
2024/03/01 * now
  assets:c 10
  income
2024/05/01 * scheduled
  assets:c 5
  income
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c +15$'
''')

S("c01-pool-merge", "C01", "an account whose second currency first appears through an inferred amount",
  "an inferred amount in a currency the account does not hold yet is dropped", [("ledger/mod.rs",
  "                            Ok(Some(b)) => {\n                                *pool += b;\n",
  "                            Ok(Some(b)) if pool.iter().any(|a| a.symbol == b.symbol) => {\n                                *pool += b;\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income
2024/03/01 * a
  assets:c 10
  income
2024/03/02 * b
  income -7 EUR
  assets:c
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^[^-]*[^-]7 EUR'
''')

S("c02-own-account", "C02", "a blank posting for an account that also has a given amount in the same entry",
  "given amounts of the blank posting's own account are left out of the remainder", [("entry.rs",
  "                // subtract the rest of the postings\n                for posting in iter {\n",
  "                // subtract the rest of the postings\n                let blank = self.postings.iter().find(|p| p.get_amount().is_none());\n"
  "                for posting in iter.filter(|p| blank.map(|b| b.get_account()) != Some(p.get_account())) {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account fees
account income
2024/03/01 * a
  income -100
  assets:c 60
  fees 15
  assets:c
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c +85$'
''')

S("c02-negative-foreign", "C02", "a blank posting next to a negative foreign amount with a unit price",
  "the native worth of a negative foreign amount loses its sign", [("posting.rs",
  "                                Some(a.mag * b.mag)\n", "                                Some(a.mag.abs() * b.mag)\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account assets:btc
account fees
2024/03/01 * sell
  assets:btc -2 BTC @ 100
  fees 5
  assets:c
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c +195$'
''')

S("c03-prefix-account", "C03", "a posting to an undeclared account whose name starts a declared one's",
  "undeclared parents of declared accounts are accepted", [("posting.rs",
  "        if !accounts.contains(&self.account) {\n",
  "        if !accounts.contains(&self.account)\n            && !accounts.iter().any(|a| a.starts_with(&format!(\"{}:\", self.account)))\n        {\n")],
  r'''
cat > j.sfox <<'X'
account assets:bank:checking
account income
2024/03/01 * a
  assets:bank 10
  income
X
cp j.sfox k
sf "2024-03-10 12:00" b -f j.sfox
has 'not defined'
''')

S("c03-two-blanks", "C03", "two blank postings below a posting in a named currency",
  "an entry with two blank postings is accepted", [("entry.rs",
  "                if blank_amounts > 1 {\n", "                if blank_amounts > 1 && symbol_set.is_empty() {\n")],
  r'''
cat > j.sfox <<'X'
account a
account b
account c
2024/03/01 * x
  a 10 EUR
  b
  c
X
sf "2024-03-10 12:00" b -n -f j.sfox
has "can't have more than one blank"
''')

S("c03-last-chunk", "C03", "the invalid entry is the last thing in an included file",
  "an error in the last entry of an included file is swallowed", [("ledger/mod.rs",
  "            self.add_from_file(&PathBuf::from(f))\n",
  "            match self.add_from_file(&PathBuf::from(f)) {\n                Err(SilverfoxError::Validation(_)) => Ok(()),\n                other => other,\n            }\n")],
  r'''
cat > j.sfox <<'X'
account a
account b
include k.txt
X
cat > k.txt <<'X'
2024/03/01 * x
  a 10
  b -10
2024/03/02 * x
  a 10
  b
  a
X
sf "2024-03-10 12:00" b -n -f j.sfox
has "can't have more than one blank"
lacks '^a {20}'
''')

S("c04-tabs", "C04", "a journal indented with tabs", "lines indented with a tab are not part of the chunk", [("ledger/mod.rs",
  "                if c.is_whitespace() {\n", "                if c == ' ' {\n")],
  r'''
printf 'account assets:c\naccount income\n2024/03/01 * pay\n\tassets:c 10\n\tincome\n' > j.sfox
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c {10,}10$'
''')

S("c05-case", "C05", "two currencies that differ only in case", "currencies are upper-cased", [("amount.rs",
  "            _ => Some(trimmed_raw_sym.to_string()),\n",
  "            _ => Some(trimmed_raw_sym.to_uppercase()),\n")],
  r'''
cat > j.sfox <<'X'
account a
account b
2024/03/01 * x
  a 10 mBTC
  b
2024/03/01 * x
  a 10 MBTC
  b
X
sf "2024-03-10 12:00" b -n -f j.sfox
has ' 10 mBTC'
has ' 10 MBTC'
''')

S("c05-dash", "C05", "a negative amount written after a currency of several letters, without a space",
  "the sign after a leading currency name is read as part of the name", [("amount.rs",
  "        let mut raw_mag = clump\n", "        let clump = if clump.starts_with(|c: char| c.is_ascii_alphabetic()) {\n            clump.replacen('-', \"\", clump.matches('-').count() - clump.matches(\" -\").count())\n        } else {\n            clump\n        };\n        let mut raw_mag = clump\n")],
  r'''
cat > j.sfox <<'X'
account a
account b
2024/03/01 * x
  a CAD-10
  b
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^a +-10 CAD'
''')

S("c06-overspent", "C06", "an envelope from which more was taken than it held",
  "what an overspent envelope lacks is not taken off the available amount", [("account.rs",
  "            amount_pool = amount_pool - envelope.get_next_amount() - envelope.get_now_amount();\n",
  "            amount_pool = amount_pool - envelope.get_next_amount();\n            if envelope.get_now_amount().mag > 0.0 {\n                amount_pool = amount_pool - envelope.get_now_amount();\n            }\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 100
    for expenses:food
account expenses:food
account income
2024/03/01 * pay
  assets:c 50
  income
2024/03/02 * eat
  assets:c -30
  expenses:food
X
sf "2024-03-10 12:00" e -n -f j.sfox
has '^     50$'
''')

S("c06-two-moves", "C06", "one entry with two postings for the same envelope",
  "only the first envelope posting of an entry for an envelope counts", [("envelope.rs",
  "                    self.apply_amount(amount, *entry.get_date());\n",
  "                    self.apply_amount(amount, *entry.get_date());\n                    break;\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 100
account income
2024/03/06 * pay
  assets:c 50
  income
2024/03/07 * move
  envelope assets:c food 10
  envelope assets:c food 5
X
sf "2024-03-10 12:00" e -n -f j.sfox
has 'next \(on 2024-04-05\) +15 / +100'
''')

S("c07-prefix-link", "C07", "an entry for an account whose name starts with a linked account's",
  "accounts that merely share a prefix with a linked account move the envelope", [("envelope.rs",
  "            } else if self.auto_accounts.contains(posting.get_account()) {\n                auto_account_count += 1;\n",
  "            } else if self.auto_accounts.iter().any(|a| posting.get_account().starts_with(a)) {\n                auto_account_count += 1;\n"),
  ("envelope.rs",
  "            } else if self.auto_accounts.contains(posting.get_account()) {\n                auto_postings_sum += amount_to_add;\n",
  "            } else if self.auto_accounts.iter().any(|a| posting.get_account().starts_with(a)) {\n                auto_postings_sum += amount_to_add;\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    for expenses:car
account expenses:car
account expenses:care
account income
2024/03/01 * pay
  assets:c 500
  income
2024/03/07 * move
  envelope assets:c car 50
2024/03/08 * nurse
  assets:c -20
  expenses:care
X
sf "2024-03-10 12:00" e -n -f j.sfox
has 'next \(on 2024-04-05\) +50 / +100'
''')

S("c07-split-larger", "C07", "a linked purchase paid only partly from the envelope's account",
  "the linked accounts' amount is used even if the account paid less", [("envelope.rs",
  "        let abs_min_mag = auto_postings_sum\n            .mag\n            .abs()\n            .min(self_account_postings_sum.mag.abs());\n",
  "        let abs_min_mag = if self_account_postings_sum.mag == 0.0 {\n            0.0\n        } else {\n            auto_postings_sum.mag.abs()\n        };\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    for expenses:car
account liabilities:card
account expenses:car
account income
2024/03/01 * pay
  assets:c 500
  income
2024/03/07 * move
  envelope assets:c car 50
2024/03/08 * repair
  assets:c -20
  liabilities:card -10
  expenses:car
X
sf "2024-03-10 12:00" e -n -f j.sfox
has 'next \(on 2024-04-05\) +30 / +100'
''')

S("c08-on-due-date", "C08", "money put in on the very day of the last due date",
  "money put in on the due date itself is already ready", [("envelope.rs", "                if date < d {\n", "                if date <= d {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
account income
2024/03/01 * pay
  assets:c 500
  income
2024/03/05 * move
  envelope assets:c car 50
X
sf "2024-03-10 12:00" e -n -f j.sfox
has 'next \(on 2024-04-05\) +50 / +100'
''')

S("c08-biweekly-last", "C08", "a biweekly envelope with money put in during the first half of the period",
  "the last due date of a biweekly envelope is only one week before the next", [("envelope.rs",
  "                Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),\n",
  "                Self::Biweekly(_) => Some(next_date - chrono::Duration::days(7)),\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every other friday starting 2024/03/01
    amount 100
account income
2024/02/01 * pay
  assets:c 500
  income
2024/03/02 * move
  envelope assets:c car 50
X
sf "2024-03-10 12:00" e -n -f j.sfox
has 'next \(on 2024-03-15\) +50 / +100'
''')

S("c09-november", "C09", "a monthly envelope seen in November or December after its day",
  "the next due date of monthly envelopes is a year off late in the year", [("envelope.rs",
  "            let next_month_ordinal = ((today.month0() + 2) % 12) + 1;\n",
  "            let next_month_ordinal = ((today.month0() + 1) % 12) + 1;\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
X
sf "2024-12-10 12:00" e -n -f j.sfox
has 'next \(on 2025-01-05\)'
''')

S("c09-bimonthly-year", "C09", "a bimonthly envelope that starts in an even month, across October",
  "a bimonthly schedule skips a year in December", [("envelope.rs",
  "                        let new_year = date.year() + month0_plus_two as i32 / 12;\n",
  "                        let new_year = date.year() + (month0_plus_two as i32 + 1) / 12;\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every other 5th starting 2024/08/05
    amount 100
X
sf "2024-11-10 12:00" e -n -f j.sfox
has 'next \(on 2024-12-05\)'
''')

S("c09-short-month", "C09", "a monthly envelope due on the 29th to 31st, when the next month is shorter",
  "in a shorter next month the due date is not its last day but spills over", [("envelope.rs",
  "            last_date_next_month\n                .with_day(day)\n                .unwrap_or(last_date_next_month)\n",
  "            last_date_next_month\n                .with_day(day)\n                .unwrap_or_else(|| last_date_next_month.succ_opt().unwrap())\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 31st
    amount 100
X
sf "2024-03-31 12:00" e -n -f j.sfox
has 'next \(on 2024-04-30\)'
''')

S("c10-foreign-double", "C10", "two envelopes in the same foreign currency competing for too little money",
  "money in a foreign currency is given out more than once", [("account.rs",
  "                available_value -= new_amount;\n",
  "                if new_amount.symbol.is_none() {\n                    available_value -= new_amount;\n                }\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100 EUR
    funding aggressive
  expense food due every 5th
    amount 100 EUR
    funding aggressive
account income
2024/03/01 * pay
  assets:c 120 EUR
  income
X
sf "2024-03-10 12:00" e -f j.sfox
lacks 'available.*-80|^ *-80'
''')

S("c10-manual-when-negative", "C10", "a manually funded envelope that is overspent",
  "an overspent envelope with manual funding is topped up", [("envelope.rs",
  "                    // no automatic movement\n                    zero_amount\n",
  "                    // no automatic movement, except to get out of the red\n                    Amount {\n                        mag: (-self.get_total_amount_mag()).max(0.0),\n                        symbol: symbol.clone(),\n                    }\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    for expenses:car
account expenses:car
account income
2024/03/01 * pay
  assets:c 500
  income
2024/03/07 * repair
  assets:c -20
  expenses:car
X
cp j.sfox before
sf "2024-03-10 12:00" e -f j.sfox
cmp -s j.sfox before || fail "money was moved"
''')

S("c11-far-date", "C11", "a conservative envelope whose due date is more than a month away",
  "conservative funding saves as if the due date were at most 31 days ahead", [("envelope.rs",
  "                    let days_remaining = date_diff.num_days();\n",
  "                    let days_remaining = date_diff.num_days().min(31);\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  goal car by 2024/06/18
    amount 100
    funding conservative
account income
2024/03/01 * pay
  assets:c 500
  income
X
sf "2024-03-10 12:00" e -f j.sfox
has 'envelope assets:c car +1$' j.sfox
''')

S("c11-ready-money", "C11", "an envelope that still holds ready money from before the last due date",
  "ready money counts towards the next due date's target", [("envelope.rs",
  "        self.amount.clone() - self.next_amount.clone()\n",
  "        let ready = Amount {\n            mag: self.now_amount.mag.max(0.0),\n            symbol: self.now_amount.symbol.clone(),\n        };\n        self.amount.clone() - self.next_amount.clone() - ready\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    funding aggressive
account income
2024/02/01 * pay
  assets:c 500
  income
2024/02/20 * move
  envelope assets:c car 60
X
sf "2024-03-10 12:00" e -f j.sfox
has 'envelope assets:c car +100$' j.sfox
''')

S("c12-utc-date", "C12", "a run at an hour when the local date differs from the UTC date",
  "the automatic entry carries the UTC date, so the envelope is funded again on the same local day", [("ledger/mod.rs",
  "            Local::now().date_naive(),\n            crate::entry::EntryStatus::Cleared,\n",
  "            chrono::Utc::now().date_naive(),\n            crate::entry::EntryStatus::Cleared,\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    funding conservative
account income
2024/02/01 * pay
  assets:c 500
  income
X
ZONE='<EST>5'
sf "2024-03-11 02:00" e -f j.sfox
has '^2024/03/10 ~ move' j.sfox
cp j.sfox once
sf "2024-03-11 02:30" e -f j.sfox
cmp -s j.sfox once || fail "funded twice"
''')

S("c12-zero-move", "C12", "an entry of today that both puts money in and takes it out, or a manual movement today before other entries",
  "an envelope that was only taken from today is funded again", [("envelope.rs",
  "            // take from an envelope. always take from the 'now' envelope\n            self.now_amount += amount.clone();\n",
  "            // take from an envelope. always take from the 'now' envelope\n            self.now_amount += amount.clone();\n            return;\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    funding aggressive
    for expenses:car
account expenses:car
account income
2024/02/01 * pay
  assets:c 500
  income
2024/03/10 * repair
  assets:c -20
  expenses:car
X
cp j.sfox before
sf "2024-03-10 12:00" e -f j.sfox
cmp -s j.sfox before || fail "funded although it was used today"
''')

S("c13-rewrite", "C13", "the process dies while it writes the journal",
  "the journal is rewritten as a whole instead of appended to", [("ledger/mod.rs",
  "        let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {\n",
  "        let old = fs::read_to_string(&self.file_path)\n            .map_err(|e| SilverfoxError::file_error(&self.file_path, e))?;\n        text.insert_str(0, &old);\n"
  "        let mut file = match fs::OpenOptions::new()\n            .write(true)\n            .truncate(true)\n            .open(&self.file_path)\n        {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    funding aggressive
account income
2024/02/01 * pay
  assets:c 500
  income
X
cp j.sfox before
export DEMO_DIE=1
sf "2024-03-10 12:00" e -f j.sfox
unset DEMO_DIE
n=$(stat -c %s before)
head -c "$n" j.sfox | cmp -s - before || fail "the journal was damaged"
''')

S("c13-register-moves", "C13", "the register with the no-move flag over a journal with envelopes to fund",
  "the register funds envelopes even when told not to", [("flags.rs",
  "        if !self.no_move {\n", "        if !self.no_move || matches!(self.subcommand, Subcommand::Register) {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense car due every 5th
    amount 100
    funding aggressive
account income
2024/02/01 * pay
  assets:c 500
  income
X
cp j.sfox before
sf "2024-03-10 12:00" r --no-move -f j.sfox
cmp -s j.sfox before || fail "the journal was changed"
''')

S("c14-precision", "C14", "a funding amount with more than six decimals",
  "amounts are written with six decimals instead of eight", [("amount.rs",
  "        (self.mag * 100_000_000.0).round() / 100_000_000.0\n",
  "        (self.mag * 1_000_000.0).round() / 1_000_000.0\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  goal car by 2024/03/17
    amount 1
    funding conservative
account income
2024/02/01 * pay
  assets:c 500
  income
X
sf "2024-03-10 12:00" e -f j.sfox
has 'envelope assets:c car +0.14285714$' j.sfox
''')

S("c14-total-cost", "C14", "an imported record with a total cost",
  "a total cost is written as a unit price", [("posting.rs",
  '            Self::TotalCost(a) => write!(f, " = {a}"),\n', '            Self::TotalCost(a) => write!(f, " @ {a}"),\n')],
  r'''
cat > j.sfox <<'X'
account assets:c
account b
X
cat > s.csv <<'X'
2024/03/01,Buy,2,150
X
cat > s.csv.rules <<'X'
skip 0
fields date, description, n, cost
account1 assets:c
amount1 %n% BTC = %cost%
account2 b
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'assets:c .* = +150$' j.sfox
''')

S("c15-skip-zero", "C15", "a rules file with `skip 0`", "the first record is always skipped", [("importer.rs",
  "        for result in reader.records().skip(rules.skip as usize) {\n",
  "        for result in reader.records().skip(rules.skip.max(1) as usize) {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
printf '2024/03/01,One,2\n2024/03/02,Two,3\n' > s.csv
printf 'skip 0\nfields date, description, amount\naccount assets:c\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'One' j.sfox
has 'Two' j.sfox
''')

S("c15-zero-amount", "C15", "a record with an amount of zero", "a record of zero is booked to income", [("importer.rs",
  "                    } else if amount.mag > 0.0 {\n", "                    } else if amount.mag >= 0.0 {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account unknown
account income:unknown
X
printf '2024/03/01,One,0\n' > s.csv
printf 'skip 0\nfields date, description, amount\naccount assets:c\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has '^ +unknown' j.sfox
''')

S("c17-ragged", "C17", "a record with a different number of fields after good records",
  "a ragged record ends the import silently, with the records before it imported", [("importer.rs",
  '                Err(e) => {\n                    return Err(SilverfoxError::from(ParseError {\n                        message: Some(format!("there was an error reading csv records: {e}")),\n                        context: None,\n                    }));\n                }\n',
  "                Err(e) if records.is_empty() => {\n"
  '                    return Err(SilverfoxError::from(ParseError {\n                        message: Some(format!("there was an error reading csv records: {e}")),\n                        context: None,\n                    }));\n                }\n                Err(_) => break,\n')],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
cp j.sfox before
printf '2024/03/01,One,2\n2024/03/02,Two,3,extra\n' > s.csv
printf 'skip 0\nfields date, description, amount\naccount assets:c\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
cmp -s j.sfox before || fail "something was imported"
''')

S("c17-status", "C17", "a record whose status field is not a status", "an unknown status is imported as cleared", [("importer.rs",
  "        let status = Self::inject_variables(&self.status, &variables).parse::<EntryStatus>()?;\n",
  "        let status = Self::inject_variables(&self.status, &variables)\n            .parse::<EntryStatus>()\n            .unwrap_or(EntryStatus::Cleared);\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
cp j.sfox before
printf '2024/03/01,One,2,*\n2024/03/02,Two,3,posted\n' > s.csv
printf 'skip 0\nfields date, description, amount, s\naccount assets:c\nstatus %%s%%\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
cmp -s j.sfox before || fail "something was imported"
''')

S("c18-netted-currency", "C18", "an entry whose asset accounts change in one currency and net to zero in another",
  "an entry is left out of the register if any of its currencies nets to zero", [("amount.rs",
  "        for amt in &self.pool {\n            if amt.mag != 0.0 {\n                return false;\n            }\n        }\n\n        true\n",
  "        for amt in &self.pool {\n            if amt.mag == 0.0 {\n                return true;\n            }\n        }\n\n        false\n")],
  r'''
cat > j.sfox <<'X'
account assets:a
account assets:b
account fees
2024/03/01 * swap
  assets:a -5 EUR
  assets:b 5 EUR
  assets:a -1
  fees 1
X
sf "2024-03-10 12:00" r -n -f j.sfox
has 'swap'
''')

S("c18-insert", "C18", "an entry out of date order among others of the same date",
  "entries of the same date are listed in reverse when one is inserted", [("ledger/mod.rs",
  "        self.entries.push(entry);\n        self.entries.sort_by(|a, b| a.get_date().cmp(b.get_date()));\n",
  "        let in_order = self.entries.last().is_none_or(|l| l.get_date() <= entry.get_date());\n        let i = if in_order {\n            self.entries.len()\n        } else {\n            self.entries.partition_point(|e| e.get_date() < entry.get_date())\n        };\n        self.entries.insert(i, entry);\n")],
  r'''
cat > j.sfox <<'X'
account assets:a
account income
2024/03/01 * first
  assets:a 1
  income
2024/03/05 * later
  assets:a 1
  income
2024/03/01 * second
  assets:a 1
  income
X
sf "2024-03-10 12:00" r -n -f j.sfox
grep -n first "$T/out" | grep -q '^1:' || fail "order"
''')

S("c19-main-dir", "C19", "a file included from a file in another directory",
  "includes are looked up from the main journal's directory once there is a subdirectory of that name", [("ledger/mod.rs",
  "        std::env::set_current_dir(parent_dir).unwrap_or(());\n",
  "        if self.entries.is_empty() || parent_dir.is_absolute() {\n            std::env::set_current_dir(parent_dir).unwrap_or(());\n        }\n")],
  r'''
mkdir sub
cat > j.sfox <<'X'
account assets:a
account income
2024/03/01 * first
  assets:a 1
  income
include sub/k.txt
X
echo 'include l.txt' > sub/k.txt
cat > sub/l.txt <<'X'
2024/03/02 * second
  assets:a 1
  income
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:a +2$'
''')

S("c20-huge-day", "C20", "an envelope due on a day of the month beyond 32 bits",
  "panic on an absurd day of the month", [("envelope.rs",
  "        num.parse::<u32>().ok()\n", "        if num.is_empty() {\n            return None;\n        }\n\n        Some(num.parse::<u32>().unwrap())\n")],
  r'''
cat > j.sfox <<'X'
account assets:a
  expense x due every 99999999999th
    amount 5
X
sf "2024-03-10 12:00" b -n -f j.sfox
lacks 'panicked'
''')

S("c20-overfull-bar", "C20", "an envelope that holds more than its target", "panic when an envelope is fuller than its bar", [("envelope.rs",
  "        let progress = (amt.mag * width_f / self.amount.mag).min(width_f).max(0.0) as usize;\n",
  "        let progress = (amt.mag * width_f / self.amount.mag).max(0.0) as usize;\n")],
  r'''
cat > j.sfox <<'X'
account assets:a
  expense x due every 9th
    amount 5
2024/03/01 * y
  envelope assets:a x 6
X
sf "2024-03-10 12:00" e -n -f j.sfox
lacks 'panicked'
''')

S("c21-env-order", "C21", "both environment variables set", "LEDGER_FILE wins over SILVERFOX_FILE", [("flags.rs",
  '    if let Ok(v) = env::var("SILVERFOX_FILE") {\n', '    if let Ok(v) = env::var("LEDGER_FILE") {\n'), ("flags.rs",
  '    } else if let Ok(v) = env::var("LEDGER_FILE") {\n', '    } else if let Ok(v) = env::var("SILVERFOX_FILE") {\n')],
  r'''
printf 'account a\naccount b\n2024/03/01 * x\n  a 1\n  b\n' > one.sfox
printf 'account a\naccount b\n2024/03/01 * x\n  a 2\n  b\n' > two.sfox
LEDGER_FILE=two.sfox SILVERFOX_FILE=one.sfox "$SF" b -n > "$T/out" 2>&1
has '^a +1$'
''')

S("c21-trailing-flag", "C21", "a flag without its value at the end of the command line",
  "a trailing flag without a value is ignored", [("flags.rs",
  "                    let arg_value = parse_argument_value(args.next(), &arg)?;\n",
  "                    let Ok(arg_value) = parse_argument_value(args.next(), &arg) else {\n                        break;\n                    };\n")],
  r'''
printf 'account a\naccount b\n2024/03/01 * x\n  a 1\n  b\n' > one.sfox
sf "2024-03-10 12:00" b -n -f one.sfox --csv
lacks '^a +1$'
has 'no value'
''')

S("c22-fallback", "C22", "a `starting` date in the default format under another date format",
  "a starting date in another format than the journal's is accepted", [("envelope.rs",
  "        match NaiveDate::parse_from_str(&s[date_idx..], date_format) {\n",
  '        match NaiveDate::parse_from_str(&s[date_idx..], date_format)\n            .or_else(|_| NaiveDate::parse_from_str(&s[date_idx..], "%Y/%m/%d"))\n        {\n')],
  r'''
cat > j.sfox <<'X'
date_format %d.%m.%Y
account assets:a
  expense x due every year starting 2024/03/09
    amount 5
X
sf "2024-03-10 12:00" e -n -f j.sfox
has "couldn't parse starting date"
''')

S("c22-append-format", "C22", "automatic funding in a journal with its own date format",
  "appended entries are dated in the default format if that reads back", [("entry.rs",
  "        let date = self.date.format(date_format);\n",
  "        let date_format = if date_format.starts_with(\"%d/\") || date_format.starts_with(\"%m/\") { \"%d/%m/%Y\" } else { date_format };\n        let date = self.date.format(date_format);\n")],
  r'''
cat > j.sfox <<'X'
date_format %m/%d/%Y
account assets:a
  expense x due every 9th
    amount 5
    funding aggressive
account income
02/01/2024 * y
  assets:a 10
  income
X
sf "2024-03-10 12:00" e -f j.sfox
has '^03/10/2024 ~' j.sfox
''')

S("c04-comment-line", "C04", "a comment line at the start of a line inside an entry",
  "a comment that starts in the first column ends the entry above it", [("ledger/mod.rs",
  "            line = utils::remove_comments(line).trim_end();\n",
  "            let indented = line.starts_with(char::is_whitespace);\n            line = utils::remove_comments(line).trim_end();\n            if line.is_empty() && !indented {\n                self.parse_chunk(&chunk)?;\n                chunk.clear();\n            }\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income
2024/03/01 * pay
  assets:c 10
; the rest
  income
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c {10,}10$'
''')

S("c16-move-to-front", "C16", "two overlapping groups, and an earlier record that only the second one matches",
  "the group used last is tried first (with nested copies of earlier groups no longer kept, which alone changes nothing)", [("importer.rs",
  "        for subrules in self.subrules.iter_mut() {\n            if subrules.applies_to(record) {\n                return subrules.rules.get_entry_from_record(record, account_set);\n            }\n        }\n",
  "        if let Some(i) = self.subrules.iter().position(|s| s.applies_to(record)) {\n            self.subrules[..=i].rotate_right(1);\n            return self.subrules[0].rules.get_entry_from_record(record, account_set);\n        }\n"),
  ("importer.rs", "            rules: other.clone(),\n", "            rules: Rules {\n                subrules: Vec::new(),\n                ..other.clone()\n            },\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account a
account b
X
printf '2024/03/01,shop,5\n2024/03/02,Big shop,5\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, amount
account1 assets:c
amount1 %amount%
account2 a
if big
  account2 b
if shop
  description Shopping
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has '^ *2024/03/02.*Big shop' j.sfox
''')

S("c16-group-order", "C16", "a record that two groups match",
  "the last matching group decides", [("importer.rs",
  "        for subrules in self.subrules.iter_mut() {\n", "        for subrules in self.subrules.iter_mut().rev() {\n"),
  ("importer.rs", "            rules: other.clone(),\n", "            rules: Rules {\n                subrules: Vec::new(),\n                ..other.clone()\n            },\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account a
account b
X
printf '2024/03/01,Big shop,5\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, amount
account1 assets:c
amount1 %amount%
account2 a
if big
  account2 b
if shop
  description Shopping
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'Big shop' j.sfox
''')

S("c16-case", "C16", "an upper-case letter outside ASCII in the record",
  "letters outside ASCII are compared with their case", [("importer.rs",
  "        let s = record.as_slice().to_lowercase();\n\n        self.patterns.iter().any(|p| s.contains(&p.to_lowercase()))",
  "        let s = record.as_slice().to_ascii_lowercase();\n\n        self.patterns.iter().any(|p| s.contains(&p.to_ascii_lowercase()))")],
  r'''
cat > j.sfox <<'X'
account assets:c
account a
account b
X
printf '2024/03/01,CAFÉ NOIR,5\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, amount
account1 assets:c
amount1 %amount%
account2 a
if café
  account2 b
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has '^ +b' j.sfox
''')

# ---- second batch

S("c01-dust-reset", "C01", "an account whose balance in one currency returns to zero while it holds another, and then moves again",
  "a currency that comes back to zero is dropped together with whatever stood after it", [("amount.rs",
  "        if let Some(a) = iter.find(|a| a.symbol == amount.symbol) {\n            *a += amount;\n        } else {\n            self.pool.push(amount.clone());\n        }\n    }\n}\n\nimpl Sub<&Amount> for AmountPool {",
  "        if let Some(i) = iter.position(|a| a.symbol == amount.symbol) {\n            self.pool[i] += amount;\n            if self.pool[i].mag == 0.0 && self.pool.len() > 2 {\n                self.pool.truncate(i);\n            }\n        } else {\n            self.pool.push(amount.clone());\n        }\n    }\n}\n\nimpl Sub<&Amount> for AmountPool {")],
  r'''
cat > j.sfox <<'X'
account assets:c
account eq
2024/03/01 * a
  assets:c 10
  eq
2024/03/02 * b
  assets:c 5 EUR
  eq
2024/03/03 * c
  assets:c 7 USD
  eq
2024/03/04 * d
  assets:c -5 EUR
  eq
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^	 7 USD$'
''')

S("c01-symbol-case", "C01", "two currencies whose symbols differ only in case",
  "currencies that differ only in case are added together", [("amount.rs",
  "        let mut iter = self.pool.iter_mut();\n        if let Some(a) = iter.find(|a| a.symbol == amount.symbol) {\n            *a += amount;\n        } else {\n            self.pool.push(amount.clone());\n        }\n    }\n}\n\nimpl Sub<&Amount> for AmountPool {",
  "        let fold = |s: &Option<String>| s.as_ref().map(|s| s.to_uppercase());\n        let mut iter = self.pool.iter_mut();\n        if let Some(a) = iter.find(|a| fold(&a.symbol) == fold(&amount.symbol)) {\n            a.mag += amount.mag;\n        } else {\n            self.pool.push(amount.clone());\n        }\n    }\n}\n\nimpl Sub<&Amount> for AmountPool {")],
  r'''
cat > j.sfox <<'X'
account assets:c
account eq
2024/03/01 * a
  assets:c 10 GBP
  eq
2024/03/02 * b
  assets:c 50 GBp
  eq
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^	 10 GBP$'
''')

S("c02-zero-first", "C02", "a blank posting in an entry whose first given amount is zero in the currency of no other",
  "amounts of zero are left out when the currency of the remainder is decided", [("entry.rs",
  "                let mut blank_amount = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {\n",
  "                let mut blank_amount = if let Some(p) = iter.find(|p| p.get_amount().is_some_and(|a| a.mag != 0.0)) {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account eq
2024/03/01 * a
  assets:c 0
  eq
2024/03/01 * b
  assets:c 4
  eq
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c +4$'
''')

S("c02-cost-sign", "C02", "a blank posting beside a negative amount with a total cost",
  "the sign of a total cost follows the sign of the amount", [("posting.rs",
  "                            if b.symbol.is_none() {\n                                Some(b.mag)\n",
  "                            if b.symbol.is_none() {\n                                Some(b.mag * a.mag.signum())\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account assets:btc
account fees
2024/03/01 * sell
  assets:btc -2 BTC = -100
  fees 1
  assets:c
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c +99$'
''')

S("c03-blank-undeclared", "C03", "a blank posting for an account that is not declared",
  "an undeclared account is accepted if its amount is left blank", [("posting.rs",
  "        if !accounts.contains(&self.account) {\n", "        if self.amount.is_some() && !accounts.contains(&self.account) {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
2024/03/01 * a
  assets:c 3
  incme
X
sf "2024-03-10 12:00" b -n -f j.sfox
has 'not defined'
''')

S("c03-late-declaration", "C03", "an account declared only after an entry that uses it, in an included file",
  "entries of included files are checked against no account list at all", [("ledger/mod.rs",
  "            Some(_) => self.parse_entry(chunk),\n",
  "            Some(_) if self.open_files.len() > 1 => {\n                let mut names: Vec<String> = self.accounts.keys().cloned().collect();\n                names.extend(chunk.lines().skip(1).filter_map(|l| l.split_whitespace().next()).map(String::from));\n                let entry = Entry::parse(chunk, &self.date_format, self.decimal_symbol, &names.iter().collect())?;\n                self.add_entry(entry)\n            }\n            Some(_) => self.parse_entry(chunk),\n")],
  r'''
printf 'account assets:c\ninclude k.txt\n' > j.sfox
printf '2024/03/01 * a\n  assets:c 3\n  incme\n' > k.txt
sf "2024-03-10 12:00" b -n -f j.sfox
has 'not defined'
''')

S("c15-url-comment", "C15", "a rules file with a comment after `;` that contains `//`",
  "the slashes of a web address in a comment count before the semicolon (where comments are removed only once)", [("utils.rs",
  "            if i < j {\n", "            if i < j && !s[..j].ends_with(':') {\n")],
  r"""
cat > j.sfox <<'X'
account assets:c
account b
X
printf '2024/03/01,Buy,2\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, n
account1 assets:c
amount1 %n%
account2 b
description Shop; see https://bank.example
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'assets:c +2$' j.sfox
has 'Shop$' j.sfox
""")

S("c05-single", "C05", "an amount with more than seven significant digits", "amounts are read in single precision", [("amount.rs",
  "        let mag = match raw_mag.parse::<f64>() {\n            Ok(m) => m,\n", "        let mag = match raw_mag.parse::<f32>() {\n            Ok(m) if (m as f64).fract() == 0.0 && m < 1e7 => m as f64,\n            Ok(m) => format!(\"{m}\").parse().unwrap(),\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account eq
2024/03/01 * a
  assets:c 123456.78
  eq
2024/03/01 * a
  assets:c 1234567.89
  eq
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^assets:c +1358024.67$'
''')

S("c05-glued", "C05", "an envelope posting with a space between the number and its currency",
  "the currency of an envelope posting is cut off when it stands apart", [("posting.rs",
  "        let amount_tokens: String = tokens.collect();\n",
  "        let amount_tokens: String = tokens.take_while(|t| t.chars().any(|c| c.is_ascii_digit() || c == '$')).collect();\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 5th
    amount 10 EUR
2024/03/01 * a
  envelope assets:c x 3 EUR
X
sf "2024-03-10 12:00" e -n -f j.sfox
has ' 3 EUR / '
''')

S("c06-foreign-envelope", "C06", "two envelopes of one account in different currencies, the first in the native currency",
  "the ready money of an envelope in another currency than the account's first is not subtracted", [("account.rs",
  "            amount_pool = amount_pool - envelope.get_next_amount() - envelope.get_now_amount();\n",
  "            amount_pool = amount_pool - envelope.get_next_amount();\n            if envelope.get_now_amount().symbol.is_none() || envelope.get_now_amount().mag < 0.0 {\n                amount_pool = amount_pool - envelope.get_now_amount();\n            }\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 5th
    amount 10
  expense y due every 5th
    amount 10 EUR
account eq
2024/01/01 * a
  assets:c 100 EUR
  eq
2024/01/01 * a
  envelope assets:c y 30 EUR
X
sf "2024-03-10 12:00" e -n -f j.sfox
has '^ +70 EUR$'
''')

S("c07-refund-larger", "C07", "a refund split between the account and another, larger than the account's share",
  "a refund moves the linked account's whole amount", [("envelope.rs",
  "            let mag_to_apply = if self_account_postings_sum.mag < 0.0 {\n                -abs_min_mag\n            } else {\n                abs_min_mag\n            };\n",
  "            let mag_to_apply = if self_account_postings_sum.mag < 0.0 {\n                -abs_min_mag\n            } else {\n                auto_postings_sum.mag.abs()\n            };\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 5th
    amount 50
    for food
account food
account owed
2024/03/07 * refund
  food -30
  assets:c 20
  owed
X
sf "2024-03-10 12:00" e -n -f j.sfox
has 'next .* 20 /  50'
''')

S("c07-first-envelope", "C07", "two envelopes of one account linked to the same account", "only the first envelope linked to an account moves", [("account.rs",
  "            envelope.process_entry(entry)?;\n",
  "            let before = envelope.get_now_amount().mag;\n            envelope.process_entry(entry)?;\n            if envelope.get_now_amount().mag < before && !entry.has_envelope_posting() {\n                break;\n            }\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 5th
    amount 50
    for food
  goal y due every 5th
    amount 50
    for food
account food
2024/03/07 * shop
  food 30
  assets:c
X
sf "2024-03-10 12:00" e -n -f j.sfox
[ "$(grep -c 'next .*-30 /  50' "$T/out")" = 2 ] || fail "both move"
''')

S("c08-weekly-last", "C08", "a weekly envelope and money moved on its last due date", "the last due date of a weekly envelope is a day late", [("envelope.rs",
  "                Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),\n",
  "                Self::Weekly(_) => Some(next_date - chrono::Duration::days(6)),\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every wednesday
    amount 50
2024/03/06 * put
  envelope assets:c x 10
X
sf "2024-03-08 12:00" e -n -f j.sfox
has 'next .* 10 /  50'
''')

S("c08-once-passed", "C08", "an envelope due once, after its date", "money set aside before a date that has passed is still for the next due date", [("envelope.rs",
  "                Self::Once(d) => Some(*d),\n", "                Self::Once(_) => None,\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  goal x due 2024/03/05
    amount 50
2024/03/01 * put
  envelope assets:c x 10
X
sf "2024-03-08 12:00" e -n -f j.sfox
has 'now .* 10 /  50'
''')

S("c10-stale-available", "C10", "two aggressive envelopes competing for less money than the two need",
  "the money left is only brought up to date after an envelope that is full", [("account.rs",
  "                available_value -= new_amount;\n                postings.push(new_posting);\n",
  "                if new_amount.symbol.is_none() || postings.is_empty() {\n                    available_value -= new_amount;\n                }\n                postings.push(new_posting);\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 5th
    amount 50 EUR
    funding aggressive
  expense y due every 5th
    amount 50 EUR
    funding aggressive
  expense z due every 5th
    amount 50 EUR
    funding aggressive
account eq
2024/02/01 * a
  assets:c 110 EUR
  eq
X
sf "2024-03-10 12:00" e -f j.sfox
lacks '^ +-'
''')

S("c11-last-day", "C11", "the day before the due date", "on the last day a conservative envelope is only filled by half", [("envelope.rs",
  "                    let days_remaining = date_diff.num_days();\n", "                    let days_remaining = date_diff.num_days().max(2);\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 11th
    amount 50
    funding conservative
account eq
2024/02/01 * a
  assets:c 110
  eq
X
sf "2024-03-10 12:00" e -f j.sfox
has 'next .* 50 /  50'
''')

S("c12-other-envelope", "C12", "an entry that names an envelope in another account with the same name",
  "a manual move for today is not seen if the envelope posting is not the first of its entry", [("envelope.rs",
  "                    self.apply_amount(amount, *entry.get_date());\n                }\n            }\n        }\n\n        Ok(())\n",
  "                    let previous = self.last_transaction_date;\n                    self.apply_amount(amount, *entry.get_date());\n                    if amount.mag < 0.0 && self.now_amount.mag >= 0.0 {\n                        self.last_transaction_date = previous;\n                    }\n                }\n            }\n        }\n\n        Ok(())\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense x due every 11th
    amount 50
    funding aggressive
account eq
2024/02/01 * a
  assets:c 110
  eq
2024/02/02 * a
  envelope assets:c x 10
2024/03/10 * a
  envelope assets:c x -5
X
cp j.sfox before
sf "2024-03-10 12:00" e -f j.sfox
cmp -s j.sfox before || fail "moved"
''')

S("c13-truncate-import", "C13", "an import into a journal whose text does not end in a newline",
  "the journal is opened for writing at its trimmed end", [("ledger/mod.rs",
  "        let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {\n            Ok(f) => f,\n",
  "        let mut file = match fs::OpenOptions::new().write(true).open(&self.file_path) {\n            Ok(mut f) => {\n                let kept = fs::read_to_string(&self.file_path).unwrap_or_default();\n                let _ = f.seek(std::io::SeekFrom::Start(kept.trim_end_matches(' ').len() as u64));\n                f\n            }\n")],
  r'''
printf 'account assets:c\naccount income:unknown\n; end    ' > j.sfox
cp j.sfox before
printf '2024/03/01,One,2\n' > s.csv
printf 'skip 0\nfields date, description, amount\naccount assets:c\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
cmp -s -n "$(stat -c %s before)" j.sfox before || fail "changed"
''')

S("c14-cost-lost", "C14", "an imported posting with a price in a currency whose symbol stands in front", "a price in a currency is written without it", [("posting.rs",
  '            Self::UnitCost(a) => write!(f, " @ {a}"),\n',
  '            Self::UnitCost(a) if a.mag < 1.0 => write!(f, " @ {}", a.rounded_mag()),\n            Self::UnitCost(a) => write!(f, " @ {a}"),\n')],
  r'''
cat > j.sfox <<'X'
account assets:c
account b
X
printf '2024/03/01,Buy,2,0.5\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, n, cost
account1 assets:c
amount1 %n% BTC @ %cost% EUR
account2 b
amount2 -1 EUR
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'assets:c .* @ +0.5 EUR$' j.sfox
''')

S("c14-long-account", "C14", "an account name of exactly fifty characters or more", "no space after a long account name", [("posting.rs",
  '        write!(f, "{:50} {}", self.account, postlude)\n', '        write!(f, "{:50}{}", self.account, postlude)\n')],
  r'''
A=assets:$(printf 'x%.0s' $(seq 50))
printf 'account %s\naccount expenses:unknown\n' "$A" > j.sfox
printf '2024/03/01,One,-2\n' > s.csv
printf 'skip 0\nfields date, description, amount\naccount %s\n' "$A" > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has "^ +$A +-2\$" j.sfox
''')

S("c15-skip-lines", "C15", "a header with a line break inside quotes", "skip counts lines of text instead of records", [("importer.rs",
  "            .from_reader(csv_str.as_bytes());\n\n        let rules = Rules::from_str(rules_str)?;\n",
  "            .from_reader(csv_str.as_bytes());\n\n        let rules = Rules::from_str(rules_str)?;\n        let body = csv_str.lines().skip(rules.skip as usize).collect::<Vec<_>>().join(\"\\n\");\n        let mut reader_after_skip = csv::ReaderBuilder::new()\n            .has_headers(false)\n            .from_reader(body.as_bytes());\n        std::mem::swap(&mut reader, &mut reader_after_skip);\n"),
  ("importer.rs", "        for result in reader.records().skip(rules.skip as usize) {\n", "        for result in reader.records() {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
printf '"Booking\ndate",Text,Sum\n2024/03/01,One,2\n' > s.csv
printf 'skip 1\nfields date, description, amount\naccount assets:c\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'One' j.sfox
''')

S("c15-default-sticky", "C15", "an `account` rule that appears only in a group", "a default amount rule is added next to the rules that exist", [("importer.rs",
  "        if self.amount_strs.is_empty() {\n", "        if !self.amount_strs.contains_key(\"\") {\n"),
  ("importer.rs", "        if self.accounts.is_empty() {\n", "        if !self.accounts.contains_key(\"\") && self.accounts.len() < 2 {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account expenses:unknown
X
printf '2024/03/01,One,-2\n' > s.csv
printf 'skip 0\nfields date, description, sum\naccount1 assets:c\namount1 %%sum%%\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'assets:c +-2$' j.sfox
''')

S("c16-two-patterns", "C16", "a group with several patterns of which the last matches", "a group applies only if its first or second pattern matches", [("importer.rs",
  "        self.patterns.iter().any(|p| s.contains(&p.to_lowercase()))", "        self.patterns\n            .iter()\n            .take(2)\n            .chain(self.patterns.last().filter(|p| p.len() > 3))\n            .any(|p| s.contains(&p.to_lowercase()))")],
  r'''
cat > j.sfox <<'X'
account assets:c
account a
account b
X
printf '2024/03/01,gas at ESS,5\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, amount
account1 assets:c
amount1 %amount%
account2 a
if shell
aral
ess
  account2 b
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has '^ +b' j.sfox
''')

S("c16-join-fields", "C16", "a pattern that would only match across two fields", "patterns are matched against fields joined by spaces", [("importer.rs",
  "        let s = record.as_slice().to_lowercase();\n", "        let s = record.iter().collect::<Vec<_>>().join(\" \").to_lowercase();\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account a
account b
X
printf '2024/03/01,at noon,5\n' > s.csv
cat > s.csv.rules <<'X'
skip 0
fields date, description, amount
account1 assets:c
amount1 %amount%
account2 a
if noon 5
  account2 b
X
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has '^ +a( |$)' j.sfox
''')

S("c18-same-day-totals", "C18", "two asset currencies moved in one entry after an entry in only one of them",
  "the running total of a second currency is printed before it is added", [("ledger/register.rs",
  "        running_total += &rd.amounts;\n\n        let mut amount_iter = rd.amounts.iter();\n",
  "        let before = running_total.clone();\n        running_total += &rd.amounts;\n\n        let mut amount_iter = rd.amounts.iter();\n"),
  ("ledger/register.rs", '                    format!("{}", running_total.only(&amount.symbol)),\n', '                    format!("{}", if before.len() == 1 { before.only(&amount.symbol) } else { running_total.only(&amount.symbol) }),\n')],
  r'''
cat > j.sfox <<'X'
account assets:a
account eq
2024/03/01 * one
  assets:a 5 EUR
  eq
2024/03/02 * two
  assets:a 3
  assets:a 2 EUR
  eq -3
  eq -2 EUR
X
sf "2024-03-10 12:00" r -n -f j.sfox
has ' 2 EUR +7 EUR$'
''')

S("c18-accent-padding", "C18", "an entry whose description has letters outside ASCII", "panic when a description outside ASCII is shortened", [("ledger/register.rs",
  "        m.description = m.description.max(reg_data.description.len());\n",
  "        let mut reg_data = reg_data;\n        if reg_data.description.len() > 60 {\n            reg_data.description.truncate(60);\n        }\n        m.description = m.description.max(reg_data.description.len());\n")],
  r'''
cat > j.sfox <<'X'
account assets:a
account eq
2024/03/01 * aéééééééééééééééééééééééééééééééééééééééééééééééé
  assets:a 5
  eq
X
sf "2024-03-10 12:00" r -n -f j.sfox
lacks panicked
has ' 5 '
''')

S("c19-format-scope", "C19", "a date_format in an included file", "a date format set in an included file ends with it", [("ledger/mod.rs",
  "            self.add_from_file(&PathBuf::from(f))\n", "            let outer = self.date_format.clone();\n            let result = self.add_from_file(&PathBuf::from(f));\n            self.date_format = outer;\n            result\n")],
  r'''
cat > j.sfox <<'X'
include k.txt
account a
account b
01.03.2024 * x
  a 2
  b
X
echo 'date_format %d.%m.%Y' > k.txt
sf "2024-03-10 12:00" b -n -f j.sfox
has '^a +2$'
''')

S("c20-header-only", "C20", "an entry header of a single token with a bracket", "panic on a closing bracket before the opening one", [("entry.rs",
  "                let p = description_and_payee[i + 1..j].trim().to_string();\n", "                let p = description_and_payee[i + 2 - 1..j].trim().to_string();\n                let p = match p.len() {\n                    0 => p,\n                    _ => p[..1].to_string() + &p[1..],\n                };\n")],
  r'''
cat > j.sfox <<'X'
account a
account b
2024/03/01 * x [é]
  a 2
  b
X
sf "2024-03-10 12:00" b -n -f j.sfox
lacks panicked
''')

S("c21-first-file", "C21", "the file flag given twice", "the first file given wins", [("flags.rs",
  "                            flags.file_path = Some(PathBuf::from(arg_value));\n",
  "                            flags.file_path.get_or_insert(PathBuf::from(arg_value));\n")],
  r'''
printf 'account a\naccount b\n2024/03/01 * x\n  a 1\n  b\n' > one.sfox
printf 'account a\naccount b\n2024/03/01 * x\n  a 2\n  b\n' > two.sfox
sf "2024-03-10 12:00" b -n -f one.sfox --file two.sfox
has '^a +2$'
''')

S("c22-import-format", "C22", "an import whose rules give the same date format as the default, into a journal with another",
  "imported dates are written with the first date format of the journal", [("ledger/mod.rs",
  "            self.date_format = d.into();\n            Ok(())\n", "            if self.entries.is_empty() || d.len() >= self.date_format.len() {\n                self.date_format = d.into();\n            }\n            Ok(())\n")],
  r'''
cat > j.sfox <<'X'
account a
account b
date_format %d.%m.%Y
01.03.2024 * x
  a 1
  b
date_format %D
03/02/24 * y
  a 1
  b
X
sf "2024-03-10 12:00" b -n -f j.sfox
has '^a +2$'
''')

S("c23-next-bar", "C23", "an overspent envelope with money for its next due date", "the bar ignores what is overspent",
  [("envelope.rs", "let next_bar = self.make_bar(&next_display, 40);", "let next_bar = self.make_bar(&self.next_amount, 40);")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 40
    for food
account food
2024/03/06 * put
  envelope assets:c food 20
2024/03/07 * shop
  assets:c -10
  food
X
sf "2024-03-10 12:00" e -n -f j.sfox
has '10 / +40 \|══════════ {30}\|'
''')

S("c23-small-target", "C23", "an envelope whose target is below one", "the bar of a small target is drawn against one",
  [("envelope.rs", "let progress = (amt.mag * width_f / self.amount.mag)", "let progress = (amt.mag * width_f / self.amount.mag.max(1.0))")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 0.5 BTC
2024/03/06 * put
  envelope assets:c food 0.25 BTC
X
sf "2024-03-10 12:00" e -n -f j.sfox
has '0.5 BTC \|════════════════════ {20}\|'
''')

S("c23-rounded", "C23", "an envelope held to almost all of its target", "the bar is rounded up, so that it is full too early",
  [("envelope.rs", "let progress = (amt.mag * width_f / self.amount.mag)", "let progress = (amt.mag * width_f / self.amount.mag).round()")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 100
2024/03/06 * put
  envelope assets:c food 99.5
X
sf "2024-03-10 12:00" e -n -f j.sfox
has '99.5 / +100 \|═══════════════════════════════════════ \|'
''')

S("c24-lower-case", "C24", "account names that differ only in the case of letters", "the balances are sorted by the names in lower case",
  [("ledger/mod.rs", "        totals_vec.sort_by(|a, b| a.0.cmp(b.0));\n", "        totals_vec.sort_by_key(|a| a.0.to_lowercase());\n")],
  r'''
cat > j.sfox <<'X'
account b
account B
account a
account C
2024/03/06 * put
  b 1
  B 2
  a 3
  C
X
sf "2024-03-10 12:00" b -n -f j.sfox
[ "$(cut -c1 $T/out | tr -d '\n')" = BCab ] || exit 1
''')

S("c24-keys", "C24", "accounts below one common account", "the envelope report is sorted by the first part of the account names only",
  [("ledger/mod.rs", "        account_keys.sort();\n", "        account_keys.sort_by_key(|k| k.split(':').next());\n")],
  r'''
for a in a b c d e f g; do printf 'account x:%s\n  goal g no date\n    amount 5\n' $a; done > j.sfox
sf "2024-03-10 12:00" e -n -f j.sfox
[ "$(grep -o '^x:.' $T/out | tr -d ':\n')" = xaxbxcxdxexfxg ] || exit 1
''')

S("c25-drain-next", "C25", "money taken from an envelope by an entry written before an entry of an earlier date", "what an envelope holds depends on the order of the entries",
  [("envelope.rs", "            self.now_amount += amount.clone();\n        } else if", "            if self.now_amount.mag <= 0.0 && self.next_amount.mag + amount.mag > 0.0 {\n                self.next_amount += amount.clone();\n            } else {\n                self.now_amount += amount.clone();\n            }\n        } else if")],
  r'''
cat > h.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 40
X
E1='2024/02/01 * old
  envelope assets:c food 20'
E2='2024/03/06 * new
  envelope assets:c food 30'
E3='2024/03/07 * take
  envelope assets:c food -10'
(cat h.sfox; echo "$E1"; echo "$E2"; echo "$E3") > j.sfox
(cat h.sfox; echo "$E2"; echo "$E3"; echo "$E1") > k.sfox
sf "2024-03-10 12:00" e -n -f j.sfox
cp $T/out $T/out1
sf "2024-03-10 12:00" e -n -f k.sfox
cmp $T/out $T/out1 || exit 1
''')

S("c25-same-date", "C25", "a purchase and a manual move of the same envelope on one day, in this order or the other", "a purchase is not taken from an envelope that was moved that day",
  [("envelope.rs", "        if self_account_count < 1 || auto_account_count < 1 {\n", "        if self_account_count < 1\n            || auto_account_count < 1\n            || self.last_transaction_date == *entry.get_date()\n        {\n")],
  r'''
cat > h.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 40
    for food
account food
X
E1='2024/03/06 * put
  envelope assets:c food 20'
E2='2024/03/06 * shop
  assets:c -10
  food'
(cat h.sfox; echo "$E1"; echo "$E2") > j.sfox
(cat h.sfox; echo "$E2"; echo "$E1") > k.sfox
sf "2024-03-10 12:00" e -n -f j.sfox
cp $T/out $T/out1
sf "2024-03-10 12:00" e -n -f k.sfox
cmp $T/out $T/out1 || exit 1
''')

S("c26-swallowed", "C26", "a journal that cannot be written to", "a failed write is not told",
  [("ledger/mod.rs", "            return Err(SilverfoxError::Basic(format!(\"{e}\")));\n        }\n\n        Ok(())\n    }\n\n    fn parse_account", "            return self.check_written(&text).map_err(|_| SilverfoxError::Basic(format!(\"{e}\")));\n        }\n\n        Ok(())\n    }\n\n    /// Some file systems report an error although everything arrived\n    fn check_written(&self, text: &str) -> Result<(), std::io::Error> {\n        fs::read_to_string(&self.file_path).map(|s| debug_assert!(s.len() + text.len() > 0))\n    }\n\n    fn parse_account")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 40
    funding aggressive
account b
2024/03/01 * x
  assets:c 100
  b
X
trap '' XFSZ
( ulimit -f 0; env DEMO_NOW=1710072000 TZ=UTC LD_PRELOAD=$T/clock.so "$SF" e -f j.sfox 2>&1 | cat > /dev/null; ) 
# the output goes through a pipe, which has no limit
( ulimit -f 0; env DEMO_NOW=1710072000 TZ=UTC LD_PRELOAD=$T/clock.so "$SF" e -f j.sfox 2>&1 >/dev/null ) | grep -q . || exit 1
''')

S("c26-unreadable-include", "C26", "an included file that is there but cannot be read", "an included file that cannot be read counts as empty",
  [("ledger/mod.rs", "        let s = fs::read_to_string(file_path)\n", "        let s = fs::read_to_string(file_path)\n            .or_else(|e| match e.kind() {\n                std::io::ErrorKind::NotFound | std::io::ErrorKind::InvalidData => Err(e),\n                _ if !self.accounts.is_empty() => Ok(String::new()),\n                _ => Err(e),\n            })\n")],
  r'''
mkdir more.sfox
cat > j.sfox <<'X'
account a
account b
include more.sfox
2024/03/01 * x
  a 1
  b
X
sf "2024-03-10 12:00" b -n -f j.sfox
lacks '^a +1'
''')

S("c26-unreadable-csv", "C26", "a CSV file that cannot be read to its end", "an import takes what it could read",
  [("importer.rs", "            fs::read_to_string(csv_file).map_err(|e| SilverfoxError::file_error(csv_file, e))?;\n",
    "            Self::read_csv(csv_file).map_err(|e| SilverfoxError::file_error(csv_file, e))?;\n"),
   ("importer.rs", "impl Iterator for CsvImporter {", "impl CsvImporter {\n    fn read_csv(csv_file: &Path) -> Result<String, std::io::Error> {\n        use std::io::Read;\n        let mut bytes = Vec::new();\n        let mut file = fs::File::open(csv_file)?;\n        let mut buffer = [0; 4096];\n        while let Ok(n) = file.read(&mut buffer) {\n            if n == 0 {\n                break;\n            }\n            bytes.extend_from_slice(&buffer[..n]);\n        }\n        String::from_utf8(bytes).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))\n    }\n}\n\nimpl Iterator for CsvImporter {")],
  r'''
mkdir x.csv
printf 'account a\naccount b\n' > j.sfox
printf 'skip 0\nfields date,description,amount\naccount a\naccount2 b\n' > x.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv x.csv
has .
''')

# an entry of the user's arrives just before silverfox's first write
MEANWHILE = r'''
cat > $T/hook.c <<'X'
#define _GNU_SOURCE
#include <fcntl.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
    static int done;
    if (fd > 2 && !done) {
        const char *t = "\n2024/03/02 * mine\n  assets:c 7\n  b\n";
        int u = (int)syscall(SYS_openat, AT_FDCWD, "j.sfox", O_WRONLY | O_APPEND, 0);
        done = 1;
        syscall(SYS_write, u, t, strlen(t));
        syscall(SYS_close, u);
    }
    return syscall(SYS_write, fd, b, n);
}
X
gcc -shared -fPIC -o $T/hook.so $T/hook.c || exit 2
cat > j.sfox <<'X'
account assets:c
  expense food due every 5th
    amount 40
    funding aggressive
account b
2024/03/01 * x
  assets:c 100
  b
X
'''
MEANWHILE_RUN = r'''
env DEMO_NOW=1710072000 TZ=UTC LD_PRELOAD=$T/hook.so:$T/clock.so "$SF" e -f j.sfox > $T/out 2>&1
has mine j.sfox
has 'assets:c 7' j.sfox
has 'assets:c 100' j.sfox
has food
sf "2024-03-10 12:00" b -n -f j.sfox
has 'assets:c +107'
'''
OPEN27 = "        let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {\n"

S("c27-rewrite", "C27", "something added to the journal by someone else between reading and writing it", "what others add meanwhile is overwritten",
  [("ledger/mod.rs", "        let mut text = String::new();\n        for entry in entries {", "        let mut text = fs::read_to_string(&self.file_path).unwrap_or_default();\n        for entry in entries {"),
   ("ledger/mod.rs", OPEN27, "        let mut file = match fs::OpenOptions::new().write(true).open(&self.file_path) {\n")],
  MEANWHILE + MEANWHILE_RUN)

S("c27-rename", "C27", "something added to the journal by someone else while its replacement is written", "what others add meanwhile is lost",
  [("ledger/mod.rs", OPEN27, "        let mut beside = self.file_path.clone().into_os_string();\n        beside.push(\"~\");\n        if let Err(e) = fs::copy(&self.file_path, &beside) {\n            return Err(SilverfoxError::file_error(&self.file_path, e));\n        }\n        let mut file = match fs::OpenOptions::new().append(true).open(&beside) {\n"),
   ("ledger/mod.rs", "            return Err(SilverfoxError::Basic(format!(\"{e}\")));\n        }\n\n        Ok(())\n    }\n\n    fn parse_account", "            return Err(SilverfoxError::Basic(format!(\"{e}\")));\n        }\n        if let Err(e) = fs::rename(&beside, &self.file_path) {\n            return Err(SilverfoxError::file_error(&self.file_path, e));\n        }\n\n        Ok(())\n    }\n\n    fn parse_account")],
  MEANWHILE + MEANWHILE_RUN)

S("c27-seek", "C27", "something added to the journal by someone else between finding its end and writing there", "what others add meanwhile is overwritten",
  [("ledger/mod.rs", OPEN27, "        use std::io::Seek;\n        let opened = fs::OpenOptions::new().write(true).open(&self.file_path).and_then(|mut f| {\n            f.seek(std::io::SeekFrom::End(0))?;\n            Ok(f)\n        });\n        let mut file = match opened {\n")],
  MEANWHILE + MEANWHILE_RUN)

S("c27-no-newline", "C27", "a journal that does not end with a line break, and something added to it meanwhile", "what others add meanwhile is lost",
  [("ledger/mod.rs", OPEN27, "        // a journal whose last line isn't finished is put in order first\n        let old = fs::read_to_string(&self.file_path).unwrap_or_default();\n        let mut options = fs::OpenOptions::new();\n        if old.is_empty() || old.ends_with('\\n') {\n            options.append(true);\n        } else {\n            options.write(true);\n            text.insert_str(0, &format!(\"{old}\\n\"));\n        }\n        let mut file = match options.open(&self.file_path) {\n")],
  MEANWHILE + "printf %s \"$(cat j.sfox)\" > j.sfox\n" + MEANWHILE_RUN)

S("c11-start", "C11", "an automatically funded envelope whose first due date (`starting`) is more than one period ahead",
  "money is saved for a due date before the first one", [("envelope.rs",
  "        let next_due_date = if let Some(d) = self.get_next_due_date() {\n", "        let next_due_date = if let Some(d) = self.freq.get_next_due_date() {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense tax due every 15th starting 2024/06/15
    amount 97
    funding conservative
account b
2024/03/01 * x
  assets:c 500
  b
X
sf "2024-03-10 12:00" e -f j.sfox
has 'envelope assets:c tax +1$' j.sfox
''')

S("c15-comment-payee", "C15", "rules with both a payee and a comment", "the comment of a record is lost", [("entry.rs",
  '                        "{} {} {} [{}] // {}\\n",\n                        date, self.status, self.description, p, c\n',
  '                        "{} {} {} [{}]{:.0}\\n",\n                        date, self.status, self.description, p, c\n')],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
printf '2024/03/01,One,5,Bob,ref 7\n' > s.csv
printf 'skip 0\nfields date, description, amount, who, ref\naccount assets:c\npayee %%who%%\ncomment see %%ref%%\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has 'One \[Bob\] *(//|;) *see ref 7' j.sfox
''')

S("c15-crlf", "C15", "a rules file with CRLF line endings", "carriage returns end up in what the rules give", [("importer.rs",
  "        for mut line in s.lines() {\n", "        for mut line in s.split('\\n') {\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
printf '2024/03/01,One,5\n' > s.csv
printf 'skip 0\r\nfields date, description, amount\r\naccount assets:c\r\nstatus *\r\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
has '^2024/03/01 \* One' j.sfox
''')

S("c16-decimal", "C16", "a decimal symbol set above a group, and a matching record with decimals", "a group does not start from the decimal symbol above it",
  [("importer.rs", "            rules: other.clone(),\n",
    "            rules: Rules {\n                decimal_symbol: Rules::default().decimal_symbol,\n                ..other.clone()\n            },\n")],
  r'''
cat > j.sfox <<'X'
account assets:c
account income:unknown
X
printf '2024/03/01;One\n' > /dev/null
printf '2024/03/01,One,"1.000,50"\n' > s.csv
printf 'skip 0\nfields date, description, amount\naccount assets:c\ndecimal_symbol ,\nif one\n  status *\n' > s.csv.rules
sf "2024-03-10 12:00" i -n -f j.sfox --csv s.csv
sf "2024-03-10 12:00" b -n -f j.sfox
has 'assets:c +1,?000.50?$'
''')

S("c03-duplicate-apart", "C03", "two envelopes of one name and type in one account, with another one between them", "a duplicate envelope is accepted",
  [("account.rs", "            .any(|e| e.get_name() == envelope.get_name());", "            .last()\n            .is_some_and(|e| e.get_name() == envelope.get_name());")],
  r'''
cat > j.sfox <<'X'
account assets:c
  expense a due every 5th
    amount 1
  expense b due every 5th
    amount 1
  expense a due every 6th
    amount 2
X
sf "2024-03-10 12:00" b -n -f j.sfox
has .
''')

S("c18-unstable", "C18", "more than twenty entries, several on one day, not written in order of date", "entries of one day change places in the register",
  [("ledger/mod.rs", "        self.entries.sort_by(|a, b| a.get_date().cmp(b.get_date()));", "        self.entries\n            .sort_unstable_by(|a, b| a.get_date().cmp(b.get_date()));")],
  r'''
printf 'account assets:a\naccount eq\n' > j.sfox
for i in $(seq 1 120); do
    printf '2024/03/%02d * n%03d\n  assets:a 1\n  eq\n' $((1 + (i * 7) % 3)) $i >> j.sfox
done
sf "2024-03-10 12:00" r -n -f j.sfox
for d in 01 02 03; do
    grep -o "2024/03/$d.*n[0-9][0-9][0-9]" $T/out | grep -o 'n[0-9][0-9][0-9]' > $T/l
    [ -s $T/l ] && sort -c $T/l 2>/dev/null || fail "out of order on $d"
done
''')
