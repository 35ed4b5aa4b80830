//! Discrete-event generation of interleaved callers: who acts next, when, and what it does.
use crate::kernel::Ev;
use crate::rng::Rng;
use crate::zoo::ShapeMeta;

/// Caller names end here; higher task numbers are used for the simulator itself (crashes and the like).
pub const SYSTEM: u64 = 99;

/// Runs `tasks` callers for `steps` steps. Every caller draws its own think times (with long stalls); the scheduler
/// always lets the caller with the earliest wake-up time go next. With probability `die_pct` a caller dies somewhere
/// in the middle: it is never scheduled again and a `die` event is emitted.
pub fn interleave(
    rng: &mut Rng, tasks: u64, steps: u64, die_pct: u64, die_op: Option<usize>,
    mut step: impl FnMut(&mut Rng, u64) -> (usize, Vec<u64>),
) -> Vec<Ev> {
    let scale: Vec<u64> = (0..tasks).map(|_| 1 << rng.below(8)).collect();
    let mut wake: Vec<Option<u64>> = scale.iter().map(|s| Some(rng.delay(*s))).collect();
    let mut left: Vec<u64> = (0..tasks)
        .map(|_| if rng.pct(die_pct) { rng.below(steps.max(1)) / tasks + 1 } else { u64::MAX })
        .collect();
    let mut ev = Vec::new();
    while (ev.len() as u64) < steps {
        let Some(t) = (0..tasks as usize).filter(|t| wake[*t].is_some()).min_by_key(|t| (wake[*t], *t)) else {
            break;
        };
        let now = wake[t].unwrap();
        if left[t] == 0 {
            if let Some(op) = die_op {
                ev.push(Ev { t: now, task: t as u64, op, a: vec![] });
            }
            wake[t] = None;
            continue;
        }
        left[t] -= 1;
        let (op, a) = step(rng, t as u64);
        ev.push(Ev { t: now, task: t as u64, op, a });
        wake[t] = Some(now + rng.delay(scale[t]));
    }
    ev
}

/// Weights for a subset of the step kinds (swarm testing): each kind is off in about a third of the runs.
pub fn swarm(rng: &mut Rng, base: &[u64]) -> Vec<u64> {
    loop {
        let w: Vec<u64> = base
            .iter()
            .map(|b| if rng.pct(33) { 0 } else { b * [1, 1, 1, 3, 8][rng.below(5) as usize] })
            .collect();
        if w.iter().sum::<u64>() > 0 {
            return w;
        }
    }
}

/// A variant, given as index into the declared ones, with a bias towards the edges of bytes, words and the enum.
pub fn variant(rng: &mut Rng, m: &ShapeMeta) -> u64 {
    let n = m.declared.len() as u64;
    if n == 0 || rng.pct(55) {
        return rng.below(n);
    }
    let max = m.max();
    let edge = |d: u32| d == max || d % 64 == 63 || d % 64 == 0 || d % 8 == 7 && rng_free(d);
    let e: Vec<u64> = (0..n).filter(|i| edge(m.declared[*i as usize])).collect();
    if e.is_empty() {
        rng.below(n)
    } else {
        *rng.pick(&e)
    }
}
fn rng_free(d: u32) -> bool {
    d < 128
}

/// Which of the declared variants (by discriminant) a filled set holds: `kind` picks a pattern, `salt` the rest.
pub fn pattern(m: &ShapeMeta, kind: u64, salt: u64) -> Vec<usize> {
    let keep = |i: usize, d: u32| -> bool {
        let mut x = salt ^ (d as u64) << 20;
        let h = crate::rng::splitmix(&mut x);
        let max = m.max();
        match kind % 10 {
            0 => h % 2 == 0,
            1 => h % 8 == 0,
            2 => h % 8 != 0,
            3 => true,
            4 => d / 64 == (salt % (max as u64 / 64 + 1)) as u32,
            5 => d / 64 != (salt % (max as u64 / 64 + 1)) as u32,
            6 => d % 64 == 0 || d % 64 == 63,
            7 => d / 64 == 0 || d / 64 == max / 64,
            8 => (d / 64) % 2 == (salt % 2) as u32,
            _ => i as u64 == salt % m.declared.len().max(1) as u64,
        }
    };
    m.declared.iter().enumerate().filter(|(i, d)| keep(*i, **d)).map(|(i, _)| i).collect()
}
