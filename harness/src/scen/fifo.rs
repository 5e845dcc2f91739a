//! Is a history of sends and polls explained by a FIFO queue?
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum Kind {
    Send(u32),
    /// took effect or not
    MaybeSend(u32),
    Poll { limit: u64, got: Vec<u32>, remaining: u64 },
    /// removed some oldest messages (at most limit) or none
    LostPoll { limit: u64 },
}

#[derive(Clone, Debug)]
pub struct HOp {
    pub inv: u64,
    pub ret: u64,
    pub kind: Kind,
    pub what: String,
}

pub enum Verdict {
    Ok,
    Bad,
    Unknown,
}

pub fn check(mut ops: Vec<HOp>, budget: usize) -> Verdict {
    let mut delivered: HashSet<u32> = HashSet::new();
    for o in &ops {
        if let Kind::Poll { got, .. } = &o.kind {
            delivered.extend(got.iter().copied());
        }
    }
    let lost = ops.iter().any(|o| matches!(o.kind, Kind::LostPoll { .. }));
    if !lost {
        ops.retain(|o| !matches!(&o.kind, Kind::MaybeSend(i) if !delivered.contains(i)));
    }
    for o in &mut ops {
        if let Kind::MaybeSend(i) = o.kind {
            if delivered.contains(&i) {
                o.kind = Kind::Send(i);
            }
        }
    }
    ops.sort_by_key(|o| o.inv);
    // acknowledged sends one after another at the start leave no choice
    let mut n = 0;
    let mut q = Vec::new();
    while n < ops.len() {
        match ops[n].kind {
            Kind::Send(id) if ops[n + 1..].iter().all(|o| o.inv > ops[n].ret) => q.push(id),
            _ => break,
        }
        n += 1;
    }
    ops.drain(..n);
    let budget = budget * 16 / (16 + q.len());
    if ops.len() > 128 {
        return Verdict::Unknown;
    }
    let mut st = St { ops: &ops, delivered: &delivered, seen: HashSet::new(), budget };
    match st.go(0, &mut q, 0) {
        Some(true) => Verdict::Ok,
        Some(false) => Verdict::Bad,
        None => Verdict::Unknown,
    }
}

struct St<'a> {
    ops: &'a [HOp],
    delivered: &'a HashSet<u32>,
    seen: HashSet<(u128, Vec<u32>)>,
    budget: usize,
}

impl St<'_> {
    fn go(&mut self, mask: u128, q: &mut Vec<u32>, maxinv: u64) -> Option<bool> {
        let req = |o: &HOp| matches!(o.kind, Kind::Send(_) | Kind::Poll { .. });
        let mut min_ret = u64::MAX;
        let mut open = false;
        for (i, o) in self.ops.iter().enumerate() {
            if mask & (1 << i) == 0 && req(o) {
                open = true;
                min_ret = min_ret.min(o.ret);
            }
        }
        if !open {
            return Some(true);
        }
        if !self.seen.insert((mask, q.clone())) {
            return Some(false);
        }
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        for i in 0..self.ops.len() {
            let o = &self.ops[i];
            if mask & (1 << i) != 0 || o.inv > min_ret || o.ret < maxinv {
                continue;
            }
            let m = mask | (1 << i);
            let mi = maxinv.max(o.inv);
            match &o.kind {
                Kind::Send(id) | Kind::MaybeSend(id) => {
                    q.push(*id);
                    let r = self.go(m, q, mi);
                    q.pop();
                    match r {
                        Some(false) => {}
                        r => return r,
                    }
                }
                Kind::Poll { limit, got, remaining } => {
                    let n = (q.len() as u64).min(*limit) as usize;
                    if got.len() != n || q[..n] != got[..] || *remaining != (q.len() - n) as u64 {
                        continue;
                    }
                    let mut q2 = q[n..].to_vec();
                    match self.go(m, &mut q2, mi) {
                        Some(false) => {}
                        r => return r,
                    }
                }
                Kind::LostPoll { limit } => {
                    let max = q.iter().take_while(|i| !self.delivered.contains(i)).count().min((*limit).min(1 << 20) as usize);
                    for k in 1..=max {
                        let mut q2 = q[k..].to_vec();
                        match self.go(m, &mut q2, mi) {
                            Some(false) => {}
                            r => return r,
                        }
                    }
                }
            }
        }
        Some(false)
    }
}
