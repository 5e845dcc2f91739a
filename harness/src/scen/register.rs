//! Is the history of one key of one table explained by a register?
use std::collections::HashSet;

pub use super::fifo::Verdict;

#[derive(Clone, Debug)]
pub enum Kind {
    Write(Option<u32>),
    /// took effect or not
    MaybeWrite(Option<u32>),
    /// reported as not applied
    Refused(u32),
    /// `None` with a filter: either nothing or a record the filter does not match
    Read { got: Option<u32>, filter: Option<u8> },
}

#[derive(Clone, Debug)]
pub struct ROp {
    pub inv: u64,
    pub ret: u64,
    pub kind: Kind,
}

pub struct Model<'a> {
    /// certificate time of a record
    pub time: &'a dyn Fn(u32) -> u64,
    pub ty: &'a dyn Fn(u32) -> u8,
    /// keep the newest record instead of the last one
    pub newest: bool,
}

pub fn check(m: &Model, mut ops: Vec<ROp>, budget: usize) -> Verdict {
    ops.sort_by_key(|o| o.inv);
    if ops.len() > 128 {
        return Verdict::Unknown;
    }
    let mut st = St { m, ops: &ops, seen: HashSet::new(), budget };
    match st.go(0, None, 0) {
        Some(true) => Verdict::Ok,
        Some(false) => Verdict::Bad,
        None => Verdict::Unknown,
    }
}

struct St<'a> {
    m: &'a Model<'a>,
    ops: &'a [ROp],
    seen: HashSet<(u128, Option<u32>)>,
    budget: usize,
}

impl St<'_> {
    fn go(&mut self, mask: u128, cur: Option<u32>, maxinv: u64) -> Option<bool> {
        let mut min_ret = u64::MAX;
        let mut open = false;
        for (i, o) in self.ops.iter().enumerate() {
            if mask & (1 << i) == 0 && !matches!(o.kind, Kind::MaybeWrite(_)) {
                open = true;
                min_ret = min_ret.min(o.ret);
            }
        }
        if !open {
            return Some(true);
        }
        if !self.seen.insert((mask, cur)) {
            return Some(false);
        }
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        for i in 0..self.ops.len() {
            let o = &self.ops[i];
            if mask & (1 << i) != 0 || o.inv > min_ret || o.ret < maxinv {
                continue;
            }
            let mut nexts: [Option<Option<u32>>; 2] = [None, None];
            match &o.kind {
                Kind::Write(v) | Kind::MaybeWrite(v) => match (self.m.newest, *v, cur) {
                    (true, Some(n), Some(c)) => {
                        let (tn, tc) = ((self.m.time)(n), (self.m.time)(c));
                        if tn >= tc {
                            nexts[0] = Some(Some(n));
                        }
                        if tn <= tc {
                            nexts[1] = Some(Some(c));
                        }
                    }
                    _ => nexts[0] = Some(*v),
                },
                Kind::Refused(v) => {
                    if cur.map(|c| (self.m.time)(c) >= (self.m.time)(*v)).unwrap_or(false) {
                        nexts[0] = Some(cur);
                    }
                }
                Kind::Read { got: Some(g), .. } => {
                    if cur == Some(*g) {
                        nexts[0] = Some(cur);
                    }
                }
                Kind::Read { got: None, filter } => {
                    let hidden = match (cur, filter) {
                        (None, _) => true,
                        (Some(c), Some(f)) => (self.m.ty)(c) != *f,
                        _ => false,
                    };
                    if hidden {
                        nexts[0] = Some(cur);
                    }
                }
            }
            for n in nexts.into_iter().flatten() {
                match self.go(mask | (1 << i), n, maxinv.max(o.inv)) {
                    Some(false) => {}
                    r => return r,
                }
            }
        }
        Some(false)
    }
}
