// Controlled scheduler for the worker pool, compiled into qlc only with --cfg qlc_verif.
//
// Every operation on the pool's channel, counters and threads is a scheduling point: exactly
// one registered thread holds the baton between two points. The environment chooses the policy:
//   QLC_VERIF_SEED=n      seeded random policy (with freezes that mimic preemption)
//   QLC_VERIF_SCHED=file  whitespace separated thread numbers (workers 1..n, main has priority),
//                         then fair scheduling
//   QLC_VERIF_STEPS=n     step bound; reaching it ends the process with code 97 ("no progress")
//   QLC_VERIF_OUT=file    report: steps, rescues, operation log
// Without QLC_VERIF_SEED and QLC_VERIF_SCHED nothing is controlled.

use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Join(usize),
    All,
    Done,
}

struct Sched {
    st: Vec<St>,
    current: usize,
    steps: u64,
    bound: u64,
    rng: u64,
    script: Option<Vec<usize>>,
    script_at: usize,
    frozen: usize,
    frozen_until: u64,
    stick: u64,
    style: u64,
    rr: usize,
    last: Instant,
    rescues: u64,
    log: Vec<(u8, &'static str)>,
    out: Option<String>,
}

static SCHED: OnceLock<Option<(Mutex<Sched>, Condvar)>> = OnceLock::new();
thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn sched() -> Option<&'static (Mutex<Sched>, Condvar)> {
    SCHED
        .get_or_init(|| {
            let seed = std::env::var("QLC_VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok());
            let script = std::env::var("QLC_VERIF_SCHED").ok().map(|p| {
                std::fs::read_to_string(p)
                    .unwrap_or_default()
                    .split_whitespace()
                    .filter_map(|w| w.parse().ok())
                    .collect::<Vec<usize>>()
            });
            if seed.is_none() && script.is_none() {
                return None;
            }
            let mut s = Sched {
                st: vec![St::Ready],
                current: 0,
                steps: 0,
                bound: std::env::var("QLC_VERIF_STEPS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000),
                rng: seed.unwrap_or(1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
                script,
                script_at: 0,
                frozen: usize::MAX,
                frozen_until: 0,
                stick: 0,
                style: 0,
                rr: 0,
                last: Instant::now(),
                rescues: 0,
                log: Vec::new(),
                out: std::env::var("QLC_VERIF_OUT").ok(),
            };
            for _ in 0..8 {
                s.next_rand();
            }
            s.style = s.next_rand() % 4;
            TID.with(|t| t.set(0));
            Some((Mutex::new(s), Condvar::new()))
        })
        .as_ref()
}

fn lock(m: &Mutex<Sched>) -> MutexGuard<'_, Sched> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Sched {
    fn next_rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng >> 11
    }

    fn runnable(&self, t: usize) -> bool {
        match self.st[t] {
            St::Ready => true,
            St::Join(o) => self.st[o] == St::Done,
            St::All => (1..self.st.len()).all(|o| self.st[o] == St::Done),
            St::Done => false,
        }
    }

    fn fair(&mut self, ready: &[usize]) -> usize {
        for k in 1..=self.st.len() {
            let t = (self.rr + k) % self.st.len();
            if ready.contains(&t) {
                self.rr = t;
                return t;
            }
        }
        ready[0]
    }

    fn pick(&mut self, me: usize) -> usize {
        let ready: Vec<usize> = (0..self.st.len()).filter(|t| self.runnable(*t)).collect();
        if ready.is_empty() {
            return usize::MAX;
        }
        if self.script.is_some() {
            if ready.contains(&0) {
                return 0;
            }
            while let Some(t) = self.script.as_ref().and_then(|s| s.get(self.script_at)).copied() {
                self.script_at += 1;
                if ready.contains(&t) {
                    return t;
                }
            }
            return self.fair(&ready);
        }
        // The second half of the budget is fair, so that running out of it means no progress.
        if self.steps > self.bound / 2 {
            return self.fair(&ready);
        }
        let style = self.style;
        if style >= 1 && self.steps >= self.frozen_until {
            self.frozen = usize::MAX;
            if self.next_rand() % 8 == 0 {
                let span = [5, 20, 60, 250][(self.next_rand() % 4) as usize];
                self.frozen = ready[(self.next_rand() % ready.len() as u64) as usize];
                self.frozen_until = self.steps + span;
            }
        }
        let live: Vec<usize> = ready.iter().copied().filter(|t| *t != self.frozen).collect();
        let live = if live.is_empty() { ready } else { live };
        if style >= 2 && self.stick > 0 && live.contains(&me) {
            self.stick -= 1;
            return me;
        }
        if style >= 2 {
            self.stick = self.next_rand() % if style == 3 { 12 } else { 4 };
        }
        live[(self.next_rand() % live.len() as u64) as usize]
    }

    fn report(&self, end: &str) {
        if let Some(out) = &self.out {
            let ops: Vec<String> = self.log.iter().map(|(t, o)| format!("{t}:{o}")).collect();
            let _ = std::fs::write(
                out,
                format!("{end} steps={} rescues={}\n{}\n", self.steps, self.rescues, ops.join(" ")),
            );
        }
    }

    fn check_bound(&self) {
        if self.steps >= self.bound {
            self.report("bound");
            println!("QLC_VERIF: no progress after {} steps", self.steps);
            std::process::exit(97);
        }
    }
}

fn wait_turn<'a>(
    mut g: MutexGuard<'a, Sched>,
    c: &'static Condvar,
    me: usize,
) -> MutexGuard<'a, Sched> {
    while g.current != me {
        let (g2, to) = c.wait_timeout(g, Duration::from_secs(2)).unwrap_or_else(|e| e.into_inner());
        g = g2;
        if to.timed_out() && g.current != me && g.last.elapsed() > Duration::from_millis(1900) {
            // The holder blocks or spins on something this scheduler does not control: let the
            // next thread run beside it. Such runs are reported as rescued.
            g.rescues += 1;
            g.steps += g.bound / 10;
            g.last = Instant::now();
            g.check_bound();
            let cur = g.current;
            let mut next = (cur.wrapping_add(1)) % g.st.len();
            for _ in 0..g.st.len() {
                if g.runnable(next) {
                    break;
                }
                next = (next + 1) % g.st.len();
            }
            g.current = next;
            c.notify_all();
        }
    }
    g
}

/// A scheduling point: the operation named follows once this returns.
pub fn point(op: &'static str) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX && SCHED.get().is_some() {
        return;
    }
    let Some((m, c)) = sched() else { return };
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    let mut g = lock(m);
    g.steps += 1;
    g.check_bound();
    g.last = Instant::now();
    let next = g.pick(me);
    if next != usize::MAX && next != me {
        g.current = next;
        c.notify_all();
        g = wait_turn(g, c, me);
    } else if next == me {
        g.current = me;
    }
    if g.log.len() < 200_000 {
        g.log.push((me as u8, op));
    }
}

fn block(until: St) {
    let me = TID.with(|t| t.get());
    let Some((m, c)) = sched() else { return };
    if me == usize::MAX {
        return;
    }
    let mut g = lock(m);
    g.st[me] = until;
    g.steps += 1;
    g.last = Instant::now();
    let next = g.pick(me);
    if next != usize::MAX && next != me {
        g.current = next;
        c.notify_all();
        g = wait_turn(g, c, me);
    }
    g.st[me] = St::Ready;
}

pub mod channel {
    pub use crossbeam_channel::*;

    #[derive(Debug)]
    pub struct Sender<T>(crossbeam_channel::Sender<T>);
    #[derive(Debug)]
    pub struct Receiver<T>(crossbeam_channel::Receiver<T>);

    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            Receiver(self.0.clone())
        }
    }

    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            super::point("send");
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            super::point("send");
            self.0.try_send(t)
        }
        pub fn is_empty(&self) -> bool {
            super::point("len");
            self.0.is_empty()
        }
        pub fn len(&self) -> usize {
            super::point("len");
            self.0.len()
        }
    }

    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            super::point("recv");
            self.0.try_recv()
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            loop {
                super::point("recv");
                match self.0.try_recv() {
                    Ok(t) => return Ok(t),
                    Err(TryRecvError::Disconnected) => return Err(RecvError),
                    Err(TryRecvError::Empty) => {}
                }
            }
        }
        pub fn recv_timeout(&self, _d: std::time::Duration) -> Result<T, RecvTimeoutError> {
            super::point("recv");
            self.0.try_recv().map_err(|e| match e {
                TryRecvError::Empty => RecvTimeoutError::Timeout,
                TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
            })
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(move || self.try_recv().ok())
        }
        pub fn is_empty(&self) -> bool {
            super::point("len");
            self.0.is_empty()
        }
        pub fn len(&self) -> usize {
            super::point("len");
            self.0.len()
        }
    }

    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        let (a, b) = crossbeam_channel::unbounded();
        (Sender(a), Receiver(b))
    }
}

pub mod atomic {
    pub use std::sync::atomic::*;

    #[derive(Debug, Default)]
    pub struct AtomicUsize(std::sync::atomic::AtomicUsize);

    impl AtomicUsize {
        pub const fn new(v: usize) -> Self {
            AtomicUsize(std::sync::atomic::AtomicUsize::new(v))
        }
        pub fn load(&self, o: Ordering) -> usize {
            super::point("load");
            self.0.load(o)
        }
        pub fn store(&self, v: usize, o: Ordering) {
            super::point("store");
            self.0.store(v, o)
        }
        pub fn swap(&self, v: usize, o: Ordering) -> usize {
            super::point("swap");
            self.0.swap(v, o)
        }
        pub fn fetch_add(&self, v: usize, o: Ordering) -> usize {
            super::point("add");
            self.0.fetch_add(v, o)
        }
        pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize {
            super::point("sub");
            self.0.fetch_sub(v, o)
        }
        pub fn fetch_max(&self, v: usize, o: Ordering) -> usize {
            super::point("max");
            self.0.fetch_max(v, o)
        }
        pub fn fetch_min(&self, v: usize, o: Ordering) -> usize {
            super::point("min");
            self.0.fetch_min(v, o)
        }
        pub fn compare_exchange(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
            super::point("cas");
            self.0.compare_exchange(a, b, s, f)
        }
        pub fn compare_exchange_weak(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
            super::point("cas");
            self.0.compare_exchange(a, b, s, f)
        }
        pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(
            &self,
            s: Ordering,
            f: Ordering,
            g: F,
        ) -> Result<usize, usize> {
            super::point("cas");
            self.0.fetch_update(s, f, g)
        }
        pub fn get_mut(&mut self) -> &mut usize {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> usize {
            self.0.into_inner()
        }
    }
}

pub mod thread {
    pub use std::thread::*;
    use super::{block, lock, sched, wait_turn, St, TID};

    pub struct Scope<'scope, 'env: 'scope>(&'scope std::thread::Scope<'scope, 'env>);
    pub struct ScopedJoinHandle<'scope, T>(std::thread::ScopedJoinHandle<'scope, T>, usize);

    pub fn scope<'env, F, T>(f: F) -> T
    where
        F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
    {
        super::point("scope");
        let out = std::thread::scope(|s| {
            let wrapped: &Scope<'_, 'env> = Box::leak(Box::new(Scope(s)));
            let r = f(wrapped);
            block(St::All);
            r
        });
        if let Some((m, _)) = sched() {
            lock(m).report("end");
        }
        out
    }

    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            super::point("spawn");
            let tid = match sched() {
                None => usize::MAX,
                Some((m, _)) => {
                    let mut g = lock(m);
                    g.st.push(St::Ready);
                    g.st.len() - 1
                }
            };
            let h = self.0.spawn(move || {
                if let Some((m, c)) = sched() {
                    TID.with(|t| t.set(tid));
                    drop(wait_turn(lock(m), c, tid));
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if let Some((m, c)) = sched() {
                    let mut g = lock(m);
                    g.st[tid] = St::Done;
                    g.steps += 1;
                    let next = g.pick(tid);
                    if next != usize::MAX {
                        g.current = next;
                    }
                    g.last = std::time::Instant::now();
                    c.notify_all();
                    TID.with(|t| t.set(usize::MAX));
                }
                match r {
                    Ok(v) => v,
                    Err(e) => std::panic::resume_unwind(e),
                }
            });
            ScopedJoinHandle(h, tid)
        }
    }

    impl<T> ScopedJoinHandle<'_, T> {
        pub fn join(self) -> std::thread::Result<T> {
            if self.1 != usize::MAX {
                block(St::Join(self.1));
            }
            self.0.join()
        }
        pub fn is_finished(&self) -> bool {
            super::point("finished");
            self.0.is_finished()
        }
    }

    pub fn sleep(d: std::time::Duration) {
        if sched().is_some() {
            super::point("sleep");
        } else {
            std::thread::sleep(d);
        }
    }

    pub fn yield_now() {
        super::point("yield");
        std::thread::yield_now();
    }
}
