//! Reduces a failing plan to a small one that fails the same way.
use crate::plan::*;
use crate::run::{run, Outcome};
use std::time::Instant;

pub struct Shrinker {
    pub prop: String,
    pub kind: String,
    pub until: Instant,
    pub best: Plan,
    pub out: Outcome,
    pub tried: u64,
}

impl Shrinker {
    fn same(&self, o: &Outcome) -> bool {
        o.violation.as_ref().map_or(false, |v| v.prop == self.prop && v.kind == self.kind)
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if Instant::now() > self.until || p == self.best {
            return false;
        }
        self.tried += 1;
        let o = run(&p, false, None);
        if self.same(&o) {
            self.best = p;
            self.out = o;
            true
        } else {
            false
        }
    }
    /// Removes elements of a list in ever smaller blocks.
    fn list(&mut self, len: impl Fn(&Plan) -> usize, cut: impl Fn(&mut Plan, usize, usize)) {
        let mut block = len(&self.best);
        while block >= 1 {
            let mut i = 0;
            while i < len(&self.best) {
                let n = block.min(len(&self.best) - i);
                let mut p = self.best.clone();
                cut(&mut p, i, n);
                if !self.attempt(p) {
                    i += block;
                }
                if Instant::now() > self.until {
                    return;
                }
            }
            block /= 2;
        }
    }
    fn each(&mut self, n: usize, f: impl Fn(&mut Plan, usize)) {
        for i in 0..n {
            let mut p = self.best.clone();
            f(&mut p, i);
            self.attempt(p);
        }
    }

    pub fn shrink(&mut self) {
        for _ in 0..6 {
            let before = self.best.size();
            self.pass();
            if self.best.size() >= before || Instant::now() > self.until {
                break;
            }
        }
        self.schedule();
    }

    fn pass(&mut self) {
        // One big tree: as small as it can be.
        while self.best.huge > 4 {
            let n = self.best.huge;
            let ok = [n / 16, n / 4, n / 2, n - n / 8, n - 1].iter().any(|m| {
                let mut p = self.best.clone();
                p.huge = (*m).max(1);
                self.attempt(p)
            });
            if !ok {
                break;
            }
        }
        self.list(|p| p.faults.len(), |p, i, n| {
            p.faults.drain(i..i + n);
        });
        {
            let mut p = self.best.clone();
            p.net_faults = false;
            self.attempt(p);
        }
        // Whole clients and tasks; their places are kept, because faults refer to them.
        self.each(self.best.clients.len(), |p, i| p.clients[i].clear());
        for n in 0..self.best.nodes.len() {
            self.each(self.best.nodes[n].tasks.len(), |p, i| p.nodes[n].tasks[i].clear());
        }
        while self.best.nodes.len() > 1 {
            let mut p = self.best.clone();
            p.nodes.pop();
            if !self.attempt(p) {
                break;
            }
        }
        while self.best.clients.last().map_or(false, |c| c.is_empty()) {
            let mut p = self.best.clone();
            p.clients.pop();
            if !self.attempt(p) {
                break;
            }
        }
        self.list(|p| p.stages.len(), |p, i, n| {
            p.stages.drain(i..i + n);
            if let Some(s) = p.stages.first_mut() {
                s.append = false;
            }
        });
        for c in 0..self.best.clients.len() {
            self.list(move |p| p.clients[c].len(), move |p, i, n| {
                p.clients[c].drain(i..i + n);
            });
        }
        for n in 0..self.best.nodes.len() {
            for t in 0..self.best.nodes[n].tasks.len() {
                self.list(move |p| p.nodes[n].tasks[t].len(), move |p, i, k| {
                    p.nodes[n].tasks[t].drain(i..i + k);
                });
            }
            while self.best.nodes[n].tasks.last().map_or(false, |t| t.is_empty()) {
                let mut p = self.best.clone();
                p.nodes[n].tasks.pop();
                if !self.attempt(p) {
                    break;
                }
            }
            if self.best.nodes[n].restore.is_some() {
                let mut p = self.best.clone();
                p.nodes[n].restore = None;
                if !self.attempt(p) {
                    self.list(move |p| p.nodes[n].restore.as_ref().map_or(0, |r| r.chunks.len()), move |p, i, k| {
                        if let Some(r) = p.nodes[n].restore.as_mut() {
                            r.chunks.drain(i..i + k);
                        }
                    });
                    for f in [
                        (|r: &mut RestorePlan| r.redo = false) as fn(&mut RestorePlan),
                        |r| r.live = false,
                        |r| r.overwrite = false,
                    ] {
                        let mut p = self.best.clone();
                        f(p.nodes[n].restore.as_mut().unwrap());
                        self.attempt(p);
                    }
                }
            }
            self.list(move |p| p.nodes[n].groups.len(), move |p, i, k| {
                p.nodes[n].groups.drain(i..i + k);
            });
            let ng = self.best.nodes[n].groups.len();
            self.each(ng, move |p, i| p.nodes[n].groups[i].n = 1);
            self.each(ng, move |p, i| p.nodes[n].groups[i].twice = false);
            self.each(ng, move |p, i| p.nodes[n].groups[i].api = 0);
            self.each(ng, move |p, i| p.nodes[n].groups[i].sync = true);
            let mut p = self.best.clone();
            p.nodes[n].delay = 0;
            self.attempt(p);
        }
        for s in 0..self.best.stages.len() {
            self.list(move |p| p.stages[s].ups.len(), move |p, i, n| {
                p.stages[s].ups.drain(i..i + n);
            });
            let nu = self.best.stages[s].ups.len();
            self.each(nu, move |p, i| {
                if let Some(v) = &mut p.stages[s].ups[i].1 {
                    v.1 = v.1.min(1);
                }
            });
        }
        for start in [0u64, 1, 10] {
            let mut p = self.best.clone();
            if p.start > start {
                p.start = start;
                self.attempt(p);
            }
        }
        // Unused keys at the end of the list.
        self.list(|p| p.keys.len(), |p, i, n| {
            let len = p.keys.len();
            if n >= len {
                return;
            }
            let used = p.stages.iter().flat_map(|s| s.ups.iter()).any(|u| {
                let k = u.0 as usize % len;
                k >= i && k < i + n
            });
            if used {
                return;
            }
            for s in p.stages.iter_mut() {
                for u in s.ups.iter_mut() {
                    let k = u.0 as usize % len;
                    u.0 = if k >= i + n { k - n } else { k } as u16;
                }
            }
            p.keys.drain(i..i + n);
        });
        let nf = self.best.faults.len();
        self.each(nf, |p, i| p.faults[i].arg = 0);
    }

    /// Makes the schedule explicit and as plain as possible.
    fn schedule(&mut self) {
        let mut p = self.best.clone();
        p.sched = Sched::Explicit(vec![]);
        if self.attempt(p) {
            return;
        }
        let mut p = self.best.clone();
        p.sched = Sched::Explicit(self.out.decisions.clone());
        if !self.attempt(p) {
            // The time is up or it is already explicit.
            let mut p = self.best.clone();
            p.sched = Sched::Explicit(self.out.decisions.clone());
            let o = run(&p, false, None);
            if self.same(&o) {
                self.best = p;
                self.out = o;
            }
        }
        let get = |p: &Plan| match &p.sched {
            Sched::Explicit(v) => v.clone(),
            _ => vec![],
        };
        // Zero out blocks of decisions.
        let mut block = get(&self.best).len();
        while block >= 1 {
            let n = get(&self.best).len();
            let mut i = 0;
            while i < n {
                let mut v = get(&self.best);
                let e = (i + block).min(v.len());
                if i < e && v[i..e].iter().any(|x| *x != 0) {
                    v[i..e].iter_mut().for_each(|x| *x = 0);
                    let mut p = self.best.clone();
                    p.sched = Sched::Explicit(v);
                    self.attempt(p);
                }
                if Instant::now() > self.until {
                    break;
                }
                i += block;
            }
            if Instant::now() > self.until {
                break;
            }
            block /= 2;
        }
        let mut v = get(&self.best);
        while v.last() == Some(&0) {
            v.pop();
        }
        let mut p = self.best.clone();
        p.sched = Sched::Explicit(v);
        let o = run(&p, false, None);
        if self.same(&o) {
            self.best = p;
            self.out = o;
        }
    }
}
