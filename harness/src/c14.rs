//! C14: how long timers last, and that timers of the past do nothing.
use crate::drive::*;
use crate::hist::E::*;
use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;
use overlord::DurationConfig;
use std::time::Duration;
use tokio::verif as rt;

#[derive(Clone)]
struct Cfg {
    interval: u64,
    ratio: [u64; 4],
}
const PLAIN: [u64; 4] = [24, 10, 5, 3];

fn some_config() -> DurationConfig {
    let q = [below(32, "ratio"), 1 + below(32, "ratio"), below(32, "ratio"), below(32, "ratio")];
    DurationConfig::new(q[0], q[1], q[2], q[3])
}
fn of(c: &DurationConfig) -> [u64; 4] {
    [c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio]
}

/// Timers of rounds (not the pause after a commit) that were started.
fn timers() -> Vec<usize> {
    (0..rt::sleep_count())
        .filter(|&i| {
            let (_, _, n, t) = rt::sleep_info(i);
            n == w().node && t != w().main_task
        })
        .collect()
}
fn expected(c: &Cfg, step: u8, r: u64) -> Duration {
    let ms = c.interval * c.ratio[step as usize] / 10;
    if step == BRAKE {
        return Duration::from_millis(ms);
    }
    let k = match r {
        0 => 1,
        1 => 2,
        2 => 4,
        3 => 8,
        4 => 16,
        _ => 32,
    };
    Duration::from_millis(ms * k)
}
/// Exactly the timers of `steps` were started since `n`.
fn started(n: usize, c: &Cfg, steps: &[(u8, u64)], what: &'static str) -> usize {
    let t = timers();
    check(t.len() == n + steps.len(), "C14: each step starts its timer");
    for (i, (s, r)) in steps.iter().enumerate() {
        check(rt::sleep_info(t[n + i]).0 == expected(c, *s, *r), what);
    }
    t.len()
}
fn fire_last() {
    let t = timers();
    fire(t[t.len() - 1]);
}
/// An interval and ratios; the solver gets one symbolic factor at a time.
fn some_settings() -> (Cfg, Option<DurationConfig>) {
    if flip("config") {
        let x = some_config();
        let i = [0u64, 1, 999, 3000, 60_007][choose(5, "interval") as usize];
        (Cfg { interval: i, ratio: of(&x) }, Some(x))
    } else {
        let i = below(1 << 9, "interval");
        if flip("odd ratios") {
            let q = [7, 31, 0, 1];
            (Cfg { interval: i, ratio: q }, Some(DurationConfig::new(q[0], q[1], q[2], q[3])))
        } else {
            (Cfg { interval: i, ratio: PLAIN }, None)
        }
    }
}
/// A height at which others lead rounds r and r + 1.
fn quiet_height(r: u64) -> u64 {
    let m = concrete(r & 3);
    let l = list(4);
    for i in 0..4 {
        if leader_index(400 + i, 400 + m, &l) != 0 && leader_index(400 + i, 401 + m, &l) != 0 {
            return 4 * (1 + below(16, "h")) + i;
        }
    }
    panic!()
}
/// small rounds, then any up to 128, then huge ones
fn some_round() -> u64 {
    match choose(10, "round") {
        8 => 8 + below(1 << 20, "round"),
        9 => {
            let k = [1u64 << 31, 1 << 32, 1 << 62][choose(3, "huge") as usize];
            k - 4 + below(16, "round")
        }
        k => k,
    }
}
fn few_rounds() -> u64 {
    match choose(4, "round") {
        0 => 0,
        1 => 1,
        2 => 4,
        _ => [5u64, (1 << 32) - 2][choose(2, "base") as usize] + below(4, "round"),
    }
}
fn with_record(h: u64, r: u64, step: u8, c: &Cfg, cfg: Option<DurationConfig>) {
    reset(0);
    let l = list(4);
    w().commit_list = l.clone();
    w().own_block = 2;
    w().wal = Some(wal_record(h, r, step, None, &init_from()));
    start(h, c.interval, l, cfg);
    settle();
}
fn next_by_chokes(h: u64, r: u64) {
    let voters: Vec<Address> = (1..4).map(addr).collect();
    let sig = sign_as(choke_bytes(h, r), voters.clone(), true);
    let agg = AggregatedChoke { height: h, round: r, signature: sig, voters };
    deliver(OverlordMsg::SignedChoke(choke(h, r + 1, UpdateFrom::ChokeQC(agg), 1)));
}

/// Every step of a round and the next one, by timers alone.
pub fn durations() {
    let r = few_rounds();
    let h = quiet_height(r);
    let (c, cfg) = some_settings();
    let s = choose(4, "step") as u8;
    with_record(h, r, s, &c, cfg);
    let mut n = started(0, &c, &[(s, r)], "C14: the timer after a start from the log");
    for k in s..3 {
        fire_last();
        n = started(n, &c, &[(k + 1, r)], "C14: length of a timer");
    }
    fire_last();
    n = started(n, &c, &[(BRAKE, r)], "C14: the choke timer does not back off");
    next_by_chokes(h, r);
    n = started(n, &c, &[(PROPOSE, r + 1)], "C14: length of the propose timer of the next round");
    // leads or not: some timer of the new round
    reach("end");
    let _ = n;
}

/// Ratios, interval and round for the back-off: one timer, wide values.
pub fn wide() {
    let r = some_round();
    let h = quiet_height(r);
    let k = choose(4, "which") as usize;
    let mut c = Cfg { interval: 3000, ratio: PLAIN };
    if flip("ratio") {
        c.ratio[k] = below(1 << 9, "ratio");
    } else {
        c.interval = [3000u64, 86_400_000][choose(2, "base") as usize] + below(1 << 9, "interval");
    }
    let cfg = DurationConfig::new(c.ratio[0], c.ratio[1], c.ratio[2], c.ratio[3]);
    with_record(h, r, k as u8, &c, Some(cfg));
    started(0, &c, &[(k as u8, r)], "C14: the timer after a start from the log");
    reach("end");
}

/// Settings that come with a new height.
pub fn settings() {
    let h0 = 4 * (1 + below(16, "h")) + 1; // another validator leads round 0 of the heights below
    let mut c = Cfg { interval: 3000, ratio: PLAIN };
    with_record(h0, 2, PROPOSE, &c, None);
    let l = list(4);
    let mut n = started(0, &c, &[(PROPOSE, 2)], "C14: the first timer");
    let mut h = h0;
    for i in 0..2u64 {
        h += 1 + i * 4;
        let interval = if flip("interval") { Some(below(4096, "interval")) } else { None };
        let cfg = if flip("config") { Some(some_config()) } else { None };
        if let Some(x) = interval {
            c.interval = x;
        }
        if let Some(x) = &cfg {
            c.ratio = of(x);
        }
        deliver(OverlordMsg::RichStatus(overlord::types::Status { height: h, interval, timer_config: cfg, authority_list: l.clone() }));
        n = started(n, &c, &[(PROPOSE, 0)], "C14: settings of a status hold from its first timer");
        fire_last();
        n = started(n, &c, &[(PREVOTE, 0)], "C14: settings of a status stay");
    }
    fire_last();
    n = started(n, &c, &[(PRECOMMIT, 0)], "C14: settings of a status stay");
    fire_last();
    n = started(n, &c, &[(BRAKE, 0)], "C14: settings of a status stay");
    next_by_chokes(h, 0);
    started(n, &c, &[(PROPOSE, 1)], "C14: settings of a status stay");
    reach("end");
}
/// Settings that come with a commit.
pub fn committed() {
    let mut d = D::new(&[1, 2, 3], 0);
    let mut c = Cfg { interval: 3000, ratio: PLAIN };
    if flip("interval") {
        let x = below(4096, "interval");
        c.interval = x;
        w().commit_interval = Some(x);
    }
    if flip("config") {
        let x = some_config();
        c.ratio = of(&x);
        w().commit_config = Some(x);
    }
    d.boot(PROPOSE, None);
    d.proposal(0, 1, None);
    d.check_done(true);
    let r = d.r;
    let n = timers().len();
    d.qc(2, r, 1);
    end_commit_pause();
    if leader_index(401 + d.hm(), 400, &d.l) == 0 {
        // it proposes at once
        let n = started(n, &c, &[(PROPOSE, 0), (PREVOTE, 0)], "C14: settings of a commit hold from the next height on");
        fire_last();
        started(n, &c, &[(PRECOMMIT, 0)], "C14: settings of a commit stay");
        reach("end");
        return;
    }
    let n = started(n, &c, &[(PROPOSE, 0)], "C14: settings of a commit hold from the next height on");
    fire_last();
    started(n, &c, &[(PREVOTE, 0)], "C14: settings of a commit stay");
    reach("end");
}

/// After any history only the timer started last may do something; and none
/// after a commit that failed.
fn stale(d: &mut D) {
    // a leader to be waits after its commit
    end_commit_pause();
    d.revive();
    let p: Vec<usize> = pending_sleeps().into_iter().filter(|i| rt::sleep_info(*i).3 != w().main_task).collect();
    if p.is_empty() {
        reach("end");
        return;
    }
    let mut over = false;
    for e in w().log.iter() {
        match e {
            Ev::Commit(..) => over = true,
            // the node went on
            Ev::CommitOk(_) | Ev::Restart | Ev::Wal(_) => over = false,
            _ => {}
        }
    }
    let last = p.len() - 1;
    let m = if over { p.len() } else { last };
    if m == 0 {
        reach("end");
        return;
    }
    let i = choose(m as u64, "stale timer") as usize;
    let n = w().log.len();
    let k = rt::sleep_count();
    fire(p[i]);
    check(w().log.len() == n, "C14: a timer of the past does nothing");
    check(rt::sleep_count() == k, "C14: a timer of the past starts no timer");
    if !over && i != last {
        // the present one still works
        fire(p[last]);
        check(w().log.len() > n, "C14: the timer of the present step works");
        reach("works");
    }
    summary();
    reach("end");
    let _ = d;
}
pub fn past() {
    let mut d = opened(&[1, 2], &[0, 1, 2, 3, 4, 5, 6, 8]);
    w().commit_fail = 1;
    pick(&mut d, &[Prop(0, 1), Qc(1, 0), Qc(1, 1), QcAt(2, 0, 0), QcAt(2, 0, 1), Agg, Timer, Check(true), Status(1)]);
    pick(&mut d, &[Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 1, 0), QcAt(2, 0, 1), ChokesAt(0), ChokesAt(1), Timer, Status(1)]);
    stale(&mut d);
}
