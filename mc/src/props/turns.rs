//! Two assemblers at work in two threads, under a scheduler that decides at every read and
//! write which of them gets on.
use crate::fw::*;
use at_asm::Assembler;
use std::io::{Read, Result as Io, Write};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct State {
    turn: usize,
    done: [bool; 2],
    steps: [usize; 2],
    /// steps after which the turn changes, in the order of the changes
    changes: Vec<usize>,
    /// steps since the last change
    since: usize,
    /// the thread whose turn it was did not get on (it waits for the other one)
    stuck: usize,
}
pub struct Turns {
    s: Mutex<State>,
    c: Condvar,
}

impl Turns {
    fn new(changes: &[usize]) -> Turns {
        Turns { s: Mutex::new(State { turn: 0, done: [false; 2], steps: [0; 2], changes: changes.to_vec(), since: 0, stuck: 0 }), c: Condvar::new() }
    }
    /// Called by a thread before each read or write.
    fn step(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        if s.turn == me && !s.done[1 - me] && s.changes.first() == Some(&s.since) {
            s.changes.remove(0);
            s.since = 0;
            s.turn = 1 - me;
            self.c.notify_all();
        }
        while s.turn != me && !s.done[1 - me] {
            let before = s.steps[1 - me];
            let (t, out) = self.c.wait_timeout(s, Duration::from_millis(500)).unwrap();
            s = t;
            if out.timed_out() && s.turn != me && s.steps[1 - me] == before {
                s.stuck += 1;
                s.since = 0;
                s.turn = me;
            }
        }
        s.steps[me] += 1;
        s.since += 1;
    }
    fn end(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        s.done[me] = true;
        s.turn = 1 - me;
        s.since = 0;
        self.c.notify_all();
    }
}

/// Gives one line per read.
struct In<'a>(&'a str, &'a Turns, usize);
impl Read for In<'_> {
    fn read(&mut self, b: &mut [u8]) -> Io<usize> {
        self.1.step(self.2);
        let n = self.0.find('\n').map_or(self.0.len(), |i| i + 1).min(b.len());
        b[..n].copy_from_slice(&self.0.as_bytes()[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct Out<'a>(Vec<u8>, &'a Turns, usize);
impl Write for Out<'_> {
    fn write(&mut self, b: &[u8]) -> Io<usize> {
        self.1.step(self.2);
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}

/// Assembles both sources under this schedule; the objects, the steps each took, and how often
/// a thread waited for the other one.
fn both(src: [&str; 2], changes: &[usize]) -> Result<([Vec<u8>; 2], [usize; 2], usize), String> {
    let t = Arc::new(Turns::new(changes));
    let r: Vec<Result<Vec<u8>, String>> = sut(|| {
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..2)
                .map(|me| {
                    let t = t.clone();
                    sc.spawn(move || {
                        let r = sut(|| {
                            let mut a = Assembler::new();
                            a.read_from(&mut In(src[me], &t, me));
                            let mut o = Out(vec![], &t, me);
                            a.write_into(&mut o);
                            o.0
                        });
                        t.end(me);
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread is gone".into()))).collect()
        })
    })?;
    let mut it = r.into_iter();
    let (a, b) = (it.next().unwrap(), it.next().unwrap());
    let s = t.s.lock().unwrap();
    Ok(([a.map_err(|e| format!("the first panicked: {e}"))?, b.map_err(|e| format!("the second panicked: {e}"))?], s.steps, s.stuck))
}

pub fn at_the_same_time(w: &mut W, pairs: &[(&str, &str)], alone: &dyn Fn(&str) -> Result<Vec<u8>, String>) {
    let th = w.thorough();
    for (n, (x, y)) in pairs.iter().enumerate() {
        // the number of steps of each, found by a run without a change of turns
        let len = match both([x, y], &[]) {
            Ok((_, s, _)) => s,
            Err(e) => {
                w.case("two threads", || format!("pair {n}"), |_| Err(e));
                continue;
            }
        };
        for (first, src) in [(0, [*x, *y]), (1, [*y, *x])] {
            let (la, lb) = (len[first], len[1 - first]);
            for i in 0..=la {
                w.case("two threads", || format!("pair {n}, {first} starts and makes way after {i} of {la} reads and writes, the other after every number of its {lb}"), |w| {
                    let want = [alone(src[0])?, alone(src[1])?];
                    let mut waits = 0;
                    for j in 0..=lb {
                        // thorough: a third change
                        let mut plans = vec![vec![i, j]];
                        if th && i % 8 == 0 && j % 8 == 0 {
                            plans.extend((0..la - i).step_by(8).map(|k| vec![i, j, k]));
                        }
                        for p in plans {
                            w.note(|| format!("turns change after {p:?} reads and writes\n  programs {src:?}"));
                            w.beat();
                            w.state(&(n, first, &p));
                            w.transitions += (la + lb) as u64;
                            w.executed(1);
                            let (got, _, stuck) = both(src, &p)?;
                            w.outcome(&got);
                            for k in 0..2 {
                                if got[k] != want[k] {
                                    return Err(format!("turns change after {p:?} reads and writes: the object of program {k} differs from the one it has alone\n  programs {src:?}"));
                                }
                            }
                            // an assembler that waits for the other one to end is slow, not wrong
                            waits += stuck;
                            if waits > 3 {
                                return Ok(());
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
