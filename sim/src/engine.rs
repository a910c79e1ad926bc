//! The deterministic scheduler: every task is a coroutine, runs until it gives up control at a
//! seam (a storage access, a network wait, a sleep), and exactly one runs at a time. Which one
//! runs next is decided by the plan alone.
use crate::plan::Sched;
use crate::rng::Rng;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// Unwinds a task whose process died (or whose run ended). Never reaches the panic hook.
pub struct CrashSignal;

pub enum Wait {
    Ready,
    Until(u64),
    Cond(Box<dyn Fn(u64) -> bool>),
}
#[derive(Clone, Copy, PartialEq)]
enum Resume {
    Go,
    Kill,
}

type Y = Yielder<Resume, Wait>;

thread_local! {
    static CUR: Cell<*const Y> = const { Cell::new(std::ptr::null()) };
}

/// Gives up control. Unwinds the task if its process was killed meanwhile.
pub fn suspend(w: Wait) {
    let y = CUR.with(|c| c.get());
    assert!(!y.is_null(), "suspend outside a task");
    let r = unsafe { &*y }.suspend(w);
    CUR.with(|c| c.set(y));
    if r == Resume::Kill {
        std::panic::resume_unwind(Box::new(CrashSignal));
    }
}

pub fn in_task() -> bool {
    CUR.with(|c| !c.get().is_null())
}

pub struct Task {
    pub id: u64,
    /// fault-address of the task (stable across restarts)
    pub key: u32,
    pub node: Option<usize>,
    pub name: &'static str,
    co: Coroutine<Resume, Wait, (), DefaultStack>,
    wait: Wait,
    prio: u64,
}

pub struct Spawn {
    pub key: u32,
    pub node: Option<usize>,
    pub name: &'static str,
    pub start_at: u64,
    pub f: Box<dyn FnOnce()>,
}

/// Shared between the scheduler and the tasks.
#[derive(Default)]
pub struct Shared {
    pub now: Cell<u64>,
    pub steps: Cell<u64>,
    pub spawn: RefCell<Vec<Spawn>>,
    /// nodes to kill after the current step
    pub kill: RefCell<Vec<usize>>,
    pub cur_key: Cell<u32>,
    pub stop: Cell<bool>,
    pub panicked: RefCell<Option<String>>,
}

pub struct Engine {
    pub sh: Rc<Shared>,
    tasks: Vec<Task>,
    cur: u64,
    next_id: u64,
    rng: Rng,
    kind: u8,
    explicit: Option<Vec<u8>>,
    pub decisions: Vec<u8>,
    change_points: Vec<u64>,
    starved: u32,
    starve_until: u64,
    pub switches: u64,
    pub trace: u64,
}

#[derive(PartialEq, Debug)]
pub enum StepResult {
    Ran,
    /// nothing left to run
    Done,
    /// tasks remain but none can ever run
    Stuck,
}

impl Engine {
    pub fn new(sh: Rc<Shared>, sched: &Sched) -> Self {
        let (kind, seed, explicit) = match sched {
            Sched::Policy { kind, seed } => (*kind, *seed, None),
            Sched::Explicit(v) => (255, 0, Some(v.clone())),
        };
        let mut rng = Rng::sub(seed, 0x5c4ed);
        let change_points = (0..3).map(|_| rng.skewed(4000) as u64).collect();
        let starved = rng.below(6) as u32;
        let starve_until = 100 + rng.skewed(20000) as u64;
        Engine {
            sh,
            tasks: vec![],
            cur: 0,
            next_id: 1,
            rng,
            kind,
            explicit,
            decisions: vec![],
            change_points,
            starved,
            starve_until,
            switches: 0,
            trace: 0x9E37,
        }
    }

    fn admit(&mut self) {
        let new: Vec<Spawn> = self.sh.spawn.borrow_mut().drain(..).collect();
        for s in new {
            let stack = DefaultStack::new(512 * 1024).expect("stack");
            let sh = self.sh.clone();
            let f = s.f;
            let co = Coroutine::with_stack(stack, move |y: &Y, r: Resume| {
                CUR.with(|c| c.set(y as *const Y));
                if r == Resume::Kill {
                    return;
                }
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if let Err(p) = res {
                    if p.downcast_ref::<CrashSignal>().is_none() {
                        let m = crate::world::panic_text(&p);
                        *sh.panicked.borrow_mut() = Some(m);
                        sh.stop.set(true);
                    }
                }
            });
            let id = self.next_id;
            self.next_id += 1;
            let prio = self.rng.u64();
            self.tasks.push(Task {
                id,
                key: s.key,
                node: s.node,
                name: s.name,
                co,
                wait: if s.start_at > 0 {
                    Wait::Until(s.start_at)
                } else {
                    Wait::Ready
                },
                prio,
            });
        }
    }

    fn runnable(&self, now: u64) -> Vec<usize> {
        let mut v: Vec<usize> = Vec::with_capacity(self.tasks.len());
        for (i, t) in self.tasks.iter().enumerate() {
            let ok = match &t.wait {
                Wait::Ready => true,
                Wait::Until(x) => *x <= now,
                Wait::Cond(f) => f(now),
            };
            if ok {
                v.push(i);
            }
        }
        // The current task first, then by id (tasks are kept in id order).
        if let Some(p) = v.iter().position(|i| self.tasks[*i].id == self.cur) {
            let i = v.remove(p);
            v.insert(0, i);
        }
        v
    }

    fn choose(&mut self, run: &[usize]) -> usize {
        let n = run.len();
        if let Some(e) = &self.explicit {
            let at = self.decisions.len();
            return e.get(at).map_or(0, |b| *b as usize % n);
        }
        if n == 1 {
            return 0;
        }
        match self.kind {
            0 => self.rng.below(n),
            1 => {
                if self.rng.chance(1, 10) {
                    self.rng.below(n)
                } else {
                    0
                }
            }
            2 => {
                let step = self.sh.steps.get();
                if self.change_points.contains(&step) {
                    let i = run[0];
                    self.tasks[i].prio = self.rng.u64() >> 32;
                }
                let mut b = 0;
                for j in 1..n {
                    if self.tasks[run[j]].prio > self.tasks[run[b]].prio {
                        b = j;
                    }
                }
                b
            }
            3 => {
                let hungry = self.sh.steps.get() < self.starve_until;
                let ok: Vec<usize> = (0..n)
                    .filter(|j| !hungry || self.tasks[run[*j]].key % 7 != self.starved)
                    .collect();
                if ok.is_empty() {
                    self.rng.below(n)
                } else {
                    ok[self.rng.below(ok.len())]
                }
            }
            _ => n - 1,
        }
    }

    pub fn step(&mut self) -> StepResult {
        self.admit();
        if self.tasks.is_empty() {
            return StepResult::Done;
        }
        let mut now = self.sh.now.get();
        let mut run = self.runnable(now);
        if run.is_empty() {
            // Let time pass until the next timer (conditions may also depend on time).
            let next = self
                .tasks
                .iter()
                .filter_map(|t| match &t.wait {
                    Wait::Until(x) => Some(*x),
                    _ => None,
                })
                .min();
            let conds = self.tasks.iter().any(|t| matches!(t.wait, Wait::Cond(_)));
            match next {
                Some(x) if x > now => now = x,
                _ if conds => now += 5_000,
                _ => return StepResult::Stuck,
            }
            if conds && next.is_none() {
                // Conditions carry deadlines; give them a bounded time to fire.
                let mut tries = 0;
                while self.runnable(now).is_empty() && tries < 200 {
                    now += 5_000;
                    tries += 1;
                }
            }
            self.sh.now.set(now);
            run = self.runnable(now);
            if run.is_empty() {
                return if next.is_some() {
                    StepResult::Ran
                } else {
                    StepResult::Stuck
                };
            }
        }
        let c = self.choose(&run);
        if run.len() > 1 || self.explicit.is_none() {
            // single choices are recorded too, so that indices line up with steps
        }
        self.decisions.push(c as u8);
        let idx = run[c];
        if self.tasks[idx].id != self.cur {
            self.switches += 1;
        }
        self.cur = self.tasks[idx].id;
        self.trace = crate::rng::mix(self.trace ^ (self.tasks[idx].key as u64 + 1));
        self.sh.cur_key.set(self.tasks[idx].key);
        self.sh.steps.set(self.sh.steps.get() + 1);
        self.sh.now.set(now + 50);
        let step = self.tasks[idx].co.resume(Resume::Go);
        CUR.with(|c| c.set(std::ptr::null()));
        match step {
            CoroutineResult::Yield(w) => self.tasks[idx].wait = w,
            CoroutineResult::Return(()) => {
                self.tasks.remove(idx);
            }
        }
        let kills: Vec<usize> = self.sh.kill.borrow_mut().drain(..).collect();
        for k in kills {
            self.kill_node(k);
        }
        StepResult::Ran
    }

    fn kill_where(&mut self, f: impl Fn(&Task) -> bool) {
        let mut i = 0;
        while i < self.tasks.len() {
            if f(&self.tasks[i]) {
                let mut t = self.tasks.remove(i);
                if t.co.started() {
                    let mut n = 0;
                    while !t.co.done() {
                        let _ = t.co.resume(Resume::Kill);
                        n += 1;
                        assert!(n < 100, "task does not die");
                    }
                } else {
                    let _ = t.co.resume(Resume::Kill);
                }
            } else {
                i += 1;
            }
        }
        CUR.with(|c| c.set(std::ptr::null()));
    }
    pub fn kill_node(&mut self, node: usize) {
        self.kill_where(|t| t.node == Some(node));
    }
    pub fn kill_all(&mut self) {
        self.sh.spawn.borrow_mut().clear();
        self.kill_where(|_| true);
    }
    pub fn task_names(&self) -> Vec<&'static str> {
        self.tasks.iter().map(|t| t.name).collect()
    }
}
