//! Enumerators shared by the checks. Every one visits a finite, completely specified set.

use crate::rv::RV;

/// All trees with at most `n` nodes over the given scalars and keys, smallest first by node count.
/// Memory is proportional to the output; use small n.
pub fn trees(n: usize, scalars: &[RV], keys: &[&str]) -> Vec<RV> {
    let mut by: Vec<Vec<RV>> = vec![Vec::new(); n + 1];
    for size in 1..=n {
        let mut out = Vec::new();
        if size == 1 {
            out.extend_from_slice(scalars);
        }
        // Containers whose children have size-1 nodes in total.
        let mut seqs = Vec::new();
        forests(size - 1, &by, &mut Vec::new(), &mut seqs);
        for f in &seqs {
            out.push(RV::Arr(f.clone()));
        }
        for f in &seqs {
            let mut ks = vec![0usize; f.len()];
            loop {
                out.push(RV::Obj(ks.iter().zip(f).map(|(k, v)| (keys[*k].to_string(), v.clone())).collect()));
                let mut i = 0;
                while i < ks.len() {
                    ks[i] += 1;
                    if ks[i] < keys.len() {
                        break;
                    }
                    ks[i] = 0;
                    i += 1;
                }
                if i == ks.len() {
                    break;
                }
            }
        }
        by[size] = out;
    }
    by.into_iter().flatten().collect()
}

fn forests(total: usize, by: &[Vec<RV>], pre: &mut Vec<RV>, out: &mut Vec<Vec<RV>>) {
    if total == 0 {
        out.push(pre.clone());
        return;
    }
    for first in 1..=total {
        for v in &by[first] {
            pre.push(v.clone());
            forests(total - first, by, pre, out);
            pre.pop();
        }
    }
}

/// Lengths that matter: everything to `dense`, then powers of two and ten and their neighbours.
pub fn lengths(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut p = 1usize;
    while p <= max {
        for d in [-1i64, 0, 1] {
            let x = p as i64 + d;
            if x >= 0 {
                v.push(x as usize);
            }
        }
        p *= 2;
    }
    let mut p = 10usize;
    while p <= max {
        for d in [-1i64, 0, 1] {
            v.push((p as i64 + d) as usize);
        }
        p *= 10;
    }
    v.retain(|&x| x <= max + 1);
    v.sort_unstable();
    v.dedup();
    v
}

/// Calls `f` with every index vector of length `len` over 0..k, in lexicographic order.
pub fn words(len: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    let mut w = vec![0usize; len];
    loop {
        f(&w);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            w[i] += 1;
            if w[i] < k {
                break;
            }
            w[i] = 0;
        }
    }
}

pub fn show(v: &RV) -> String {
    v.text()
}

/// Replays a choice sequence and extends it with zeros: a stateless search over every value,
/// document or history that a function builds by calling `choose`. Sequences with more than
/// `budget` non-zero choices are left out; `budget = usize::MAX` visits all of them.
pub struct Chooser {
    trail: Vec<(usize, usize)>,
    pos: usize,
    budget: usize,
    pub done: bool,
}

impl Chooser {
    pub fn new(budget: usize) -> Self {
        Chooser { trail: Vec::new(), pos: 0, budget, done: false }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.trail.len() {
            self.trail.push((0, n));
        }
        let (c, m) = self.trail[self.pos];
        assert_eq!(m, n, "choices must depend only on earlier choices");
        self.pos += 1;
        c
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// Moves to the next sequence; call once the builder has returned.
    pub fn next(&mut self) {
        self.trail.truncate(self.pos);
        self.pos = 0;
        loop {
            let Some((c, n)) = self.trail.pop() else {
                self.done = true;
                return;
            };
            let used = self.trail.iter().filter(|t| t.0 != 0).count();
            if c + 1 < n && used + 1 <= self.budget {
                self.trail.push((c + 1, n));
                return;
            }
        }
    }
    /// Replays the current sequence from the start.
    pub fn again(&self) -> Self {
        Chooser { trail: self.trail.clone(), pos: 0, budget: self.budget, done: false }
    }
    pub fn path(&self) -> String {
        self.trail.iter().map(|t| t.0.to_string()).collect::<Vec<_>>().join(".")
    }
    pub fn used(&self) -> usize {
        self.trail.iter().filter(|t| t.0 != 0).count()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn chooser() {
        let mut c = Chooser::new(usize::MAX);
        let mut seen = Vec::new();
        while !c.done {
            let a = c.choose(3);
            let b = if a == 1 { c.choose(2) } else { 9 };
            seen.push((a, b));
            c.next();
        }
        assert_eq!(seen, [(0, 9), (1, 0), (1, 1), (2, 9)]);
    }
}
