pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as char] } else { dec(n / 10).push((48 + n % 10) as char) } }
