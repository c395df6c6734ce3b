//! Linearizability of a short history over one object (Wing & Gong search with memoisation).
use std::collections::HashSet;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub struct LOp<O> {
    pub inv: u64,
    pub ret: u64,
    /// The operation may or may not have taken effect (its process was killed inside it).
    pub optional: bool,
    pub op: O,
}

pub enum Lin {
    Yes,
    No,
    /// Search budget exhausted; no verdict.
    Unknown,
}

/// `step(state, op)` gives the possible next states (empty: the operation's result is impossible in this state).
pub fn check<O, S: Clone + Eq + Hash>(ops: &[LOp<O>], init: S, mut step: impl FnMut(&S, &O, bool) -> Vec<S>) -> Lin {
    if ops.len() > 120 {
        return Lin::Unknown;
    }
    let n = ops.len();
    let must: u128 = (0..n).filter(|i| !ops[*i].optional).fold(0, |m, i| m | 1 << i);
    let mut seen: HashSet<(u128, S)> = HashSet::new();
    let mut stack = vec![(0u128, init)];
    let mut budget = 400_000u64;
    while let Some((done, s)) = stack.pop() {
        if done & must == must {
            return Lin::Yes;
        }
        if !seen.insert((done, s.clone())) {
            continue;
        }
        if budget == 0 {
            return Lin::Unknown;
        }
        budget -= 1;
        // Nothing that starts after some unfinished operation has returned may come next.
        let limit = (0..n).filter(|i| done >> i & 1 == 0 && !ops[*i].optional).map(|i| ops[i].ret).min().unwrap_or(u64::MAX);
        // Later-starting first onto the stack, so that the earliest is tried first.
        let mut cand: Vec<usize> = (0..n).filter(|i| done >> i & 1 == 0 && ops[*i].inv < limit).collect();
        cand.sort_by_key(|i| std::cmp::Reverse(ops[*i].ret));
        for i in cand {
            for t in step(&s, &ops[i].op, ops[i].optional) {
                stack.push((done | 1 << i, t));
            }
        }
    }
    Lin::No
}
