//! Events that meet: what arrives while the node is still at work on something
//! else.  A burst of events is posted with any number of task steps in between,
//! and each part of the node looks first at any of its inputs.
use crate::drive::*;
use crate::hist::{apply, E, E::*};
use crate::mon;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;
use tokio::verif as rt;

/// Makes the event happen, without letting the node work.
pub fn post(d: &mut D, e: E) {
    match e {
        Prop(off, b) => {
            if d.leader(off) != 0 {
                d.send_proposal(off, b, b, None);
            }
        }
        Prop2(off, b) => {
            if d.leader(off) != 0 {
                d.send_proposal(off, b, 3, None);
            }
        }
        Locked(off, b) => {
            if d.leader(off) != 0 {
                let lr = below(128, "polc round");
                assume(lr < d.r + off);
                d.send_proposal(off, b, b, Some(lr));
            }
        }
        Qc(t, b) => {
            let r = below(160, "qc round");
            d.send_qc(t, r, b);
        }
        QcAt(t, off, b) => {
            let r = d.r + off;
            d.send_qc(t, r, b);
        }
        Chokes => {
            let r = below(160, "choke round");
            for i in 1..4 {
                d.send_choke(r, i);
            }
        }
        ChokesAt(off) => {
            let r = d.r + off;
            for i in 1..4 {
                d.send_choke(r, i);
            }
        }
        Votes(t, off, b) => {
            let (h, r) = (d.h, d.r + off);
            d.cert(t, h, r, b);
            w().log.push(Ev::InQc { t, h, r, b, valid: true });
            for i in 1..4 {
                send(OverlordMsg::SignedVote(vote(t, h, r, &hash(b), i)));
            }
        }
        Timer => {
            let mut p = pending_sleeps();
            if p.len() > 3 {
                p = p.split_off(p.len() - 3);
            }
            if !p.is_empty() {
                let i = if p.len() == 1 { 0 } else { choose(p.len() as u64, "timer") as usize };
                rt::expire(p[i]);
            }
        }
        Check(ok) => {
            let o = open_checks();
            if !o.is_empty() {
                let i = if o.len() == 1 { 0 } else { choose(o.len() as u64, "which check") as usize };
                finish_check(o[i], ok);
            }
        }
        Status(k) => {
            let h = d.h + k;
            d.cur = h;
            send(status(h, &d.l));
        }
        Agg => d.send_choke_agg(),
        Crash => d.crash_now(),
        ChokeQc(..) | Pause => apply(d, e),
    }
}
/// Some steps of some tasks.
pub fn work(most: u64) {
    let k = choose(most, "steps");
    for _ in 0..k {
        if !tick() {
            // the same as fewer steps
            vf_done();
        }
    }
}
fn one(m: &[E]) -> E {
    m[choose(m.len() as u64, "event") as usize]
}
/// `n` events of a burst with less than `most` steps between two of them.
pub fn burst(d: &mut D, menus: &[&[E]], most: u64) {
    w().select = if most > STEPS { choose(4, "first input") as usize } else { 3 * choose(2, "first input") as usize };
    for (i, m) in menus.iter().enumerate() {
        if i > 0 {
            work(most);
        }
        let e = one(m);
        post(d, e);
    }
    settle();
    d.revive();
    w().select = 0;
}
fn begin(turns: &[u64], opens: &[u64]) -> D {
    let mut d = D::new(turns, 0);
    w().own_vary = true;
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    d
}
fn then(d: &mut D, m: &[E]) {
    let e = one(m);
    apply(d, e);
}
fn done(d: &D, f: fn(&D)) {
    f(d);
    summary();
    reach("end");
}

const WIDE: &[E] = &[Prop(0, 1), Prop(0, 2), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), QcAt(2, 0, 1), QcAt(1, 1, 2), ChokesAt(0), Timer, Check(true)];
pub const STEPS: u64 = 7;
const DEEP: u64 = 8;

/// C03
pub fn c03_race() {
    let mut d = begin(&[1, 3], &[0, 1, 2, 4, 8]);
    burst(&mut d, &[&[Prop(0, 1), QcAt(1, 0, 0), QcAt(1, 0, 1), ChokesAt(0), QcAt(2, 0, 0), Timer], &[Prop(0, 2), Prop(1, 2), QcAt(1, 0, 1), Timer, Check(true)]], STEPS);
    then(&mut d, &[Timer, QcAt(1, 0, 1), QcAt(2, 0, 0)]);
    done(&d, mon::votes_consistent);
}
pub fn c03_raced() {
    let mut d = begin(&[1, 3], &[0, 1, 2, 3, 4, 5, 8, 9]);
    burst(&mut d, &[WIDE, WIDE], DEEP);
    then(&mut d, &[Timer, QcAt(1, 0, 1), QcAt(2, 0, 0), Prop(1, 2)]);
    done(&d, mon::votes_consistent);
}
/// C04
pub fn c04_race() {
    let mut d = begin(&[1, 2], &[3, 4, 9]);
    burst(&mut d, &[&[Locked(1, 2), QcAt(1, 0, 2), QcAt(2, 0, 0), ChokesAt(0), Timer], &[Prop(0, 2), Prop(1, 2), QcAt(1, 1, 0), QcAt(1, 1, 2), Timer]], STEPS);
    then(&mut d, &[Prop(0, 2), Prop(1, 2), Timer]);
    done(&d, mon::lock_respected);
}
pub fn c04_raced() {
    let mut d = begin(&[1, 2, 3], &[3, 4, 7, 9]);
    burst(&mut d, &[WIDE, &[Prop(0, 2), Prop(1, 2), Locked(1, 2), QcAt(1, 0, 2), QcAt(1, 1, 0), QcAt(1, 1, 2), QcAt(2, 0, 0), Timer]], DEEP);
    then(&mut d, &[Prop(0, 2), Prop(1, 2), QcAt(2, 0, 0), Timer]);
    then(&mut d, &[Prop(1, 2), Timer]);
    done(&d, mon::lock_respected);
}
/// C05
pub fn c05_race() {
    let mut d = begin(&[1, 3], &[0, 1, 4, 8]);
    burst(&mut d, &[&[Prop(0, 1), Prop2(0, 1), QcAt(1, 0, 1), QcAt(2, 0, 0), Check(true), Check(false), Timer], &[Prop(0, 1), Prop(1, 1), QcAt(1, 0, 1), QcAt(1, 1, 1), Check(true), Check(false), Timer]], STEPS);
    then(&mut d, &[QcAt(1, 0, 1), QcAt(1, 1, 1), Check(true), Timer]);
    done(&d, mon::precommit_justified);
}
pub fn c05_raced() {
    let mut d = begin(&[1, 3], &[0, 1, 2, 4, 8, 9]);
    burst(&mut d, &[WIDE, WIDE], DEEP);
    then(&mut d, &[QcAt(1, 0, 1), QcAt(1, 1, 2), Check(true), Check(false), Timer]);
    done(&d, mon::precommit_justified);
}
/// C06
pub fn c06_race() {
    let mut d = begin(&[1, 2], &[1, 2, 3, 9]);
    w().commit_fail = 1;
    burst(&mut d, &[&[QcAt(2, 0, 1), QcAt(2, 1, 1), QcAt(1, 0, 1), Check(true)], &[QcAt(2, 0, 1), QcAt(2, 2, 1), Status(1), Check(true), QcAt(2, 0, 0), Timer]], STEPS);
    then(&mut d, &[QcAt(2, 0, 1), QcAt(2, 1, 1), Pause, Status(1), Crash]);
    then(&mut d, &[Pause, QcAt(2, 0, 1)]);
    done(&d, mon::commits_right);
}
pub fn c06_raced() {
    let mut d = begin(&[1, 2, 3], &[1, 2, 3, 4, 8, 9]);
    w().commit_fail = 1;
    burst(&mut d, &[&[QcAt(2, 0, 1), QcAt(2, 1, 1), QcAt(1, 0, 1), Check(true), Prop(0, 1), Prop2(0, 1)], &[QcAt(2, 0, 1), QcAt(2, 2, 1), Status(1), Check(true), QcAt(2, 0, 0), Timer], &[Check(true), Status(1), Status(2), QcAt(2, 0, 1), Timer]], 5);
    then(&mut d, &[QcAt(2, 0, 1), QcAt(2, 1, 1), Pause, Status(1), Crash]);
    done(&d, mon::commits_right);
}
/// C07
pub fn c07_race() {
    let mut d = begin(&[1, 3], &[0, 2, 4, 8]);
    w().wal_fail = 1;
    burst(&mut d, &[&[Prop(0, 1), QcAt(1, 0, 0), QcAt(1, 0, 1), ChokesAt(0), QcAt(2, 0, 0), Timer], &[QcAt(1, 0, 1), QcAt(1, 1, 0), QcAt(2, 0, 1), QcAt(2, 0, 0), Timer]], STEPS);
    done(&d, mon::logged_first);
}
pub fn c07_raced() {
    let mut d = begin(&[1, 3], &[0, 1, 2, 3, 4, 6, 7, 8]);
    w().wal_fail = 1;
    burst(&mut d, &[WIDE, WIDE], DEEP);
    then(&mut d, &[Timer, Crash, QcAt(1, 0, 1)]);
    done(&d, mon::logged_first);
}
/// C08
pub fn c08_race() {
    let mut d = begin(&[3], &[0, 3, 6]);
    burst(&mut d, &[&[Prop(0, 1), ChokesAt(0), QcAt(2, 0, 0), Agg, QcAt(1, 1, 0)], &[ChokesAt(0), QcAt(2, 0, 0), Agg, QcAt(1, 0, 1), Timer]], STEPS);
    then(&mut d, &[Agg, ChokesAt(0), QcAt(2, 0, 0)]);
    done(&d, mon::proposals_right);
}
pub fn c08_raced() {
    let mut d = begin(&[3, 2], &[0, 1, 2, 3, 4, 6, 7, 8]);
    burst(&mut d, &[WIDE, &[Prop(1, 1), ChokesAt(0), ChokesAt(1), QcAt(2, 0, 0), QcAt(2, 1, 0), Agg, QcAt(1, 0, 1), QcAt(1, 0, 0), Timer]], DEEP);
    then(&mut d, &[Agg, Timer, ChokesAt(0), QcAt(2, 0, 0)]);
    done(&d, mon::proposals_right);
}
/// C13
pub fn c13_race() {
    let mut d = begin(&[1, 3], &[0, 3, 6, 8]);
    burst(&mut d, &[&[Prop(0, 1), QcAt(2, 0, 0), QcAt(1, 1, 0), ChokesAt(0), Status(1), QcAt(1, 0, 1)], &[Prop(0, 2), Prop(1, 2), Timer, QcAt(1, 0, 1), QcAt(2, 0, 0), Check(true)]], STEPS);
    then(&mut d, &[Timer, QcAt(1, 0, 1), QcAt(2, 0, 0)]);
    done(&d, mon::never_back);
}
pub fn c13_raced() {
    let mut d = begin(&[1, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    burst(&mut d, &[&[Prop(0, 1), QcAt(2, 0, 0), QcAt(1, 1, 0), ChokesAt(0), Status(1), Status(2), QcAt(2, 0, 1), Agg, Timer], WIDE], DEEP);
    then(&mut d, &[Timer, QcAt(1, 0, 1), QcAt(2, 0, 0), Prop(1, 2)]);
    done(&d, mon::never_back);
}
/// C15
pub fn c15_race() {
    let mut d = begin(&[1, 3], &[0, 3, 6, 7]);
    burst(&mut d, &[&[QcAt(2, 0, 0), QcAt(1, 1, 0), ChokesAt(0), Agg, Status(1), QcAt(1, 0, 1)], &[ChokesAt(0), ChokesAt(1), Timer, QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(1, 1, 2)]], STEPS);
    then(&mut d, &[Timer, ChokesAt(0), QcAt(2, 0, 0)]);
    done(&d, mon::rounds_justified);
}
pub fn c15_raced() {
    let mut d = begin(&[1, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    burst(&mut d, &[WIDE, &[ChokesAt(0), ChokesAt(1), Agg, Timer, QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(2, 1, 0), QcAt(1, 1, 2)]], DEEP);
    then(&mut d, &[Timer, ChokesAt(0), ChokesAt(1), QcAt(2, 0, 0)]);
    done(&d, mon::rounds_justified);
}

/// A call of the application takes its time, and the rest of the node goes on.
fn slow(turns: &[u64], opens: &[u64], a: &[E], b: &[E], f: fn(&D)) {
    let mut d = begin(turns, opens);
    w().yields = 1;
    w().wal_fail = 1;
    burst(&mut d, &[a, b], 1);
    done(&d, f);
}
const FIRST: &[E] = &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), QcAt(1, 1, 2), ChokesAt(0), Timer, Check(true)];
const SECOND: &[E] = &[Prop(0, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), Timer];
pub fn c03_slow() {
    slow(&[1, 3], &[0, 2, 4, 8], FIRST, SECOND, mon::votes_consistent)
}
pub fn c07_slow() {
    slow(&[1, 3], &[0, 2, 4, 8], FIRST, SECOND, mon::logged_first)
}
pub fn c13_slow() {
    slow(&[1, 3], &[0, 2, 4, 8], FIRST, SECOND, mon::never_back)
}
