//! Histories explored for the properties over all orders of events.
use crate::drive::*;
use crate::mon;
use crate::sym::*;
use crate::world::*;

#[derive(Clone, Copy)]
pub enum E {
    /// proposal of the round base + off for a block
    Prop(u64, u8),
    /// the same hash with another content
    Prop2(u64, u8),
    /// proposal of the next round with a proof of lock of any earlier round
    Locked(u64, u8),
    /// certificate of any round: type, block
    Qc(u8, u8),
    /// certificate of the round base + off
    QcAt(u8, u64, u8),
    /// chokes of all others for any round
    Chokes,
    ChokesAt(u64),
    Agg,
    ChokeQc(u8, u8),
    Timer,
    Check(bool),
    Crash,
    Status(u64),
    /// votes of all others in round base + off
    Votes(u8, u64, u8),
    Pause,
}
use E::*;

pub fn apply(d: &mut D, e: E) {
    match e {
        Prop(off, b) => d.proposal(off, b, None),
        Prop2(off, b) => {
            if d.leader(off) != 0 {
                d.send_proposal(off, b, 3, None);
                settle();
                d.revive();
            }
        }
        Locked(off, b) => {
            let lr = below(128, "polc round");
            assume(lr < d.r + off);
            d.proposal(off, b, Some(lr));
        }
        Qc(t, b) => {
            let r = below(160, "qc round");
            d.qc(t, r, b);
        }
        QcAt(t, off, b) => {
            let r = d.r + off;
            d.qc(t, r, b);
        }
        Chokes => {
            let r = below(160, "choke round");
            for i in 1..4 {
                d.choke(r, i);
            }
        }
        ChokesAt(off) => {
            for i in 1..4 {
                let r = d.r + off;
                d.choke(r, i);
            }
        }
        Agg => {
            let r = below(160, "choke qc round");
            d.choke_agg(r, 1);
        }
        ChokeQc(t, b) => {
            let r = below(160, "qc round");
            d.choke_qc(t, r, b, 1);
        }
        Timer => d.timer(),
        Check(ok) => d.check_done(ok),
        Crash => d.crash_now(),
        Status(k) => {
            let h = d.h + k;
            d.status(h);
        }
        Votes(t, off, b) => d.votes(t, off, b),
        Pause => {
            end_commit_pause();
            d.revive();
        }
    }
}
pub fn pick(d: &mut D, m: &[E]) {
    let i = choose(m.len() as u64, "event") as usize;
    apply(d, m[i]);
}
pub fn opened(turns: &[u64], opens: &[u64]) -> D {
    let mut d = D::new(turns, 0);
    let k = opens[choose(opens.len() as u64, "open") as usize];
    d.open(k);
    d
}

/// C03: everything that can make a node vote twice in a round.
pub fn c03_votes() {
    let mut d = opened(&[1, 3], &[0, 1, 2, 3, 4, 5, 6, 8, 9]);
    pick(&mut d, &[Prop(0, 1), Prop(0, 2), Prop(1, 2), Qc(1, 1), Qc(1, 0), Timer, Check(true), Crash, Agg, Locked(1, 2)]);
    pick(&mut d, &[Prop(0, 2), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 2), QcAt(1, 0, 0), Qc(2, 0), Timer, Check(true), Crash]);
    mon::votes_consistent(&d);
    summary();
    reach("end");
}
pub fn c03_deep() {
    let mut d = opened(&[1, 3], &[0, 1, 2, 3, 4, 5, 6, 8, 9]);
    for _ in 0..2 {
        pick(&mut d, &[Prop(0, 1), Prop(0, 2), Prop(1, 2), Qc(1, 1), Qc(1, 2), Qc(1, 0), Qc(2, 0), Timer, Check(true), Crash, Agg, Locked(1, 2)]);
    }
    mon::votes_consistent(&d);
    summary();
    reach("end");
}
/// One round of votes with crashes anywhere and different input afterwards.
pub fn c03_crash() {
    let mut d = D::new(&[1, 3], 0);
    d.boot(PROPOSE, None);
    w().crash = 1;
    pick(&mut d, &[Prop(0, 1), Timer]);
    pick(&mut d, &[Check(true), Crash]);
    pick(&mut d, &[QcAt(1, 0, 1), QcAt(1, 0, 0), Timer, Prop(0, 2)]);
    pick(&mut d, &[QcAt(1, 0, 1), Timer, Prop(0, 2), QcAt(1, 0, 0)]);
    pick(&mut d, &[Timer, QcAt(1, 0, 1), Check(true)]);
    mon::votes_consistent(&d);
    summary();
    reach("end");
}
/// The node leads: its own votes count in what it aggregates.
pub fn c03_leader() {
    let mut d = D::new(&[3], 0);
    d.open(8 + choose(2, "locked"));
    w().crash = 1;
    pick(&mut d, &[Check(true), Votes(1, 1, 2), Votes(1, 1, 0), Timer]);
    pick(&mut d, &[Votes(1, 1, 2), Votes(1, 1, 0), Votes(2, 1, 2), Votes(2, 1, 0), Timer]);
    pick(&mut d, &[Votes(1, 1, 0), Votes(2, 1, 2), Votes(2, 1, 0), Timer, Check(true)]);
    mon::votes_consistent(&d);
    summary();
    reach("end");
}

/// C04: a locked node and everything that could make it forget.
pub fn c04_lock() {
    let mut d = opened(&[1, 3], &[3, 4, 7, 9]);
    pick(&mut d, &[Prop(0, 2), Prop(1, 2), Locked(1, 2), Locked(1, 1), Locked(0, 2), Qc(1, 2), Qc(1, 0), Qc(1, 1), Agg, Timer, Crash]);
    pick(&mut d, &[QcAt(2, 0, 0), QcAt(1, 0, 2), QcAt(1, 0, 1), Locked(1, 2), Check(true), Crash]);
    pick(&mut d, &[Prop(0, 2), Prop(1, 2), Timer]);
    mon::lock_respected(&d);
    summary();
    reach("end");
}
pub fn c04_deep() {
    let mut d = opened(&[1, 3], &[3, 4, 9]);
    for _ in 0..2 {
        pick(&mut d, &[Prop(0, 2), Prop(1, 2), Locked(1, 2), Locked(1, 1), Locked(0, 2), Qc(1, 2), Qc(1, 0), Qc(1, 1), Qc(2, 0), Agg, Timer, Crash, Check(true)]);
    }
    // whatever happened: the vote of the round it is in now
    pick(&mut d, &[Prop(0, 2), Prop(1, 2), Timer]);
    mon::lock_respected(&d);
    summary();
    reach("end");
}
/// Locked, next round, then a vote: three events in fixed places.
pub fn c04_rounds() {
    let mut d = opened(&[1, 2], &[3, 4]);
    pick(&mut d, &[QcAt(2, 0, 0), ChokesAt(0), Timer]);
    pick(&mut d, &[Prop(1, 2), Locked(1, 2), Locked(1, 1), QcAt(1, 1, 0), QcAt(1, 1, 2), Crash]);
    pick(&mut d, &[QcAt(2, 1, 0), ChokesAt(1), QcAt(1, 1, 1)]);
    pick(&mut d, &[Prop(2, 2), Locked(2, 2), Timer]);
    mon::lock_respected(&d);
    summary();
    reach("end");
}

/// C05: precommits.
pub fn c05_precommits() {
    let mut d = opened(&[1, 3], &[0, 1, 2, 4, 5, 6, 8, 9]);
    pick(&mut d, &[Prop(0, 1), Prop(0, 2), Prop2(0, 1), Prop(1, 2), Qc(1, 1), Qc(1, 0), Timer, Check(true), Check(false), Crash]);
    pick(&mut d, &[Prop(0, 1), Prop(1, 2), Qc(1, 2), QcAt(1, 0, 1), Check(true), Check(false), Crash, QcAt(2, 0, 0)]);
    pick(&mut d, &[QcAt(1, 0, 1), QcAt(1, 1, 2), Timer, Check(true)]);
    mon::precommit_justified(&d);
    summary();
    reach("end");
}
pub fn c05_deep() {
    let mut d = opened(&[1, 3], &[0, 1, 2, 4, 5, 6, 8, 9]);
    for _ in 0..2 {
        pick(&mut d, &[Prop(0, 1), Prop(0, 2), Prop2(0, 1), Locked(1, 2), Qc(1, 1), Qc(1, 2), Qc(1, 0), Timer, Check(true), Check(false), Crash, QcAt(2, 0, 0)]);
    }
    pick(&mut d, &[QcAt(1, 0, 1), QcAt(1, 0, 2), QcAt(1, 1, 2), Timer, Check(true)]);
    mon::precommit_justified(&d);
    summary();
    reach("end");
}
/// Check results and certificates across a change of height.
pub fn c05_heights() {
    let mut d = D::new(&[1, 2], 0);
    d.boot(PROPOSE, None);
    d.proposal(0, 1, None);
    pick(&mut d, &[Check(true), Check(false), QcAt(1, 0, 1), Timer]);
    d.own_height(1);
    pick(&mut d, &[Prop(0, 1), Prop(0, 2), Check(true), QcAt(1, 0, 1), Timer]);
    pick(&mut d, &[Prop(0, 1), Check(true), QcAt(1, 0, 1), Timer, Crash]);
    pick(&mut d, &[Prop(0, 1), Check(true), Check(false), QcAt(1, 0, 1), Timer]);
    pick(&mut d, &[QcAt(1, 0, 1), Check(true), Timer]);
    mon::precommit_justified(&d);
    summary();
    reach("end");
}
/// As leader.
pub fn c05_leader() {
    let mut d = D::new(&[3], 0);
    d.open(8 + choose(2, "locked"));
    for _ in 0..3 {
        pick(&mut d, &[Check(true), Check(false), Votes(1, 1, 2), Votes(1, 1, 1), Votes(1, 1, 0), Votes(2, 1, 2), Timer, Crash]);
    }
    mon::precommit_justified(&d);
    summary();
    reach("end");
}

/// C06: commits.
pub fn c06_commits() {
    let mut d = opened(&[1, 2], &[1, 2, 3, 4, 9]);
    w().commit_fail = 1;
    pick(&mut d, &[Prop2(0, 1), Prop2(1, 1), Prop(1, 1), Check(true), Check(false), Qc(2, 1), Qc(2, 2), QcAt(1, 0, 1), Crash, Timer]);
    pick(&mut d, &[Prop(0, 1), Prop2(0, 1), Prop2(1, 1), Check(true), QcAt(2, 0, 1), QcAt(2, 1, 1), Crash, Status(1)]);
    pick(&mut d, &[QcAt(2, 0, 1), QcAt(2, 2, 1), Check(true), Crash]);
    mon::commits_right(&d);
    summary();
    reach("end");
}
/// Two contents with one hash: the check of one says nothing about the other.
pub fn c06_contents() {
    let mut d = opened(&[1, 2], &[1, 2]);
    pick(&mut d, &[QcAt(2, 0, 0), QcAt(1, 1, 0), ChokesAt(0)]);
    pick(&mut d, &[Prop2(1, 1), Prop(1, 1)]);
    pick(&mut d, &[Check(true), Check(false), QcAt(1, 1, 1), Timer]);
    pick(&mut d, &[QcAt(2, 1, 1), QcAt(2, 0, 1), QcAt(1, 1, 1)]);
    pick(&mut d, &[Check(true), Check(false), QcAt(2, 1, 1)]);
    mon::commits_right(&d);
    summary();
    reach("end");
}
pub fn c06_deep() {
    let mut d = opened(&[1, 2], &[1, 2, 3, 4, 9]);
    w().commit_fail = 1;
    for _ in 0..2 {
        pick(&mut d, &[Prop(0, 1), Prop2(0, 1), Prop(1, 1), Prop2(1, 1), Check(true), Check(false), Qc(2, 1), Qc(2, 2), Qc(1, 1), Crash, Status(1), Timer]);
    }
    pick(&mut d, &[Qc(2, 1), Check(true), Crash, Prop2(1, 1)]);
    mon::commits_right(&d);
    summary();
    reach("end");
}
/// Around a commit: crash, failure, a second certificate, the next height.
pub fn c06_after() {
    let mut d = opened(&[1, 2], &[2, 3]);
    w().commit_fail = 1;
    w().crash = 1;
    pick(&mut d, &[QcAt(2, 0, 1), QcAt(2, 2, 1)]);
    pick(&mut d, &[Pause, QcAt(2, 1, 1), Status(1), Crash, Timer]);
    pick(&mut d, &[Pause, QcAt(2, 0, 1), Status(1), Crash]);
    pick(&mut d, &[Pause, QcAt(2, 0, 1), Crash]);
    mon::commits_right(&d);
    summary();
    reach("end");
}
pub fn c06_afterd() {
    let mut d = opened(&[1, 2], &[2, 3]);
    w().commit_fail = 1;
    w().crash = 1;
    pick(&mut d, &[QcAt(2, 0, 1), QcAt(2, 2, 1)]);
    pick(&mut d, &[Pause, QcAt(2, 0, 1), QcAt(2, 1, 1), Status(1), Crash, Timer]);
    pick(&mut d, &[Pause, QcAt(2, 0, 1), QcAt(2, 1, 1), Status(1), Crash, Status(2), Timer]);
    pick(&mut d, &[Pause, QcAt(2, 0, 1), Status(1), Crash, Check(true)]);
    mon::commits_right(&d);
    summary();
    reach("end");
}
/// Starting from a log that stands in the commit step.
pub fn c06_restart() {
    let mut d = D::new(&[1, 2, 0], 0);
    w().commit_fail = 1;
    w().crash = 1;
    let r = below(128, "commit round");
    d.cert(2, d.h, r, 1);
    let q = qc(&d.l, 2, d.h, r, &hash(1), MOST);
    w().log.push(Ev::InQc { t: 2, h: d.h, r, b: 1, valid: true });
    let rec = wal_record(d.h, d.r, COMMIT, Some((d.r, &q, 1)), &init_from());
    w().wal = Some(rec.clone());
    w().log.push(Ev::Wal(rec));
    w().log.push(Ev::Restart);
    start(d.h, 3000, d.l.clone(), None);
    settle();
    d.revive();
    pick(&mut d, &[Pause, Crash, Status(1), QcAt(2, 0, 1)]);
    pick(&mut d, &[Pause, Crash, Status(1), Status(2), QcAt(2, 1, 1)]);
    let mut n = 0u64;
    for e in w().log.iter() {
        if let Ev::Commit(..) = e {
            n += 1;
        }
    }
    check(n > 0, "C07: a log in the commit step leads to the commit");
    mon::commits_right(&d);
    mon::logged_first(&d);
    summary();
    reach("end");
}

/// C07: failing writes and crashes at every point.
pub fn c07_faults() {
    let mut d = opened(&[1, 3], &[0, 2, 4, 5, 6, 8, 9]);
    w().wal_fail = 1;
    w().crash = 1;
    pick(&mut d, &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), QcAt(1, 1, 1), ChokesAt(0), Timer, Check(true)]);
    pick(&mut d, &[Prop(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 1), QcAt(2, 0, 0), QcAt(1, 1, 2), Timer, Check(true), Crash]);
    mon::logged_first(&d);
    summary();
    reach("end");
}
/// Longer, crashes between the events only.
pub fn c07_restart() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 7, 8, 9]);
    pick(&mut d, &[Prop(0, 1), Qc(1, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), Agg, Timer]);
    pick(&mut d, &[Crash]);
    pick(&mut d, &[Prop(0, 2), Prop(1, 2), QcAt(1, 0, 2), QcAt(2, 0, 0), Timer]);
    pick(&mut d, &[QcAt(1, 1, 2), Timer, Crash]);
    mon::logged_first(&d);
    summary();
    reach("end");
}
pub fn c07_deep() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 7, 8, 9]);
    pick(&mut d, &[Prop(0, 1), Qc(1, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), Locked(1, 2), Agg, Timer]);
    pick(&mut d, &[Crash]);
    pick(&mut d, &[Prop(0, 2), Prop(1, 2), Qc(1, 2), QcAt(2, 0, 0), Timer]);
    pick(&mut d, &[Qc(1, 2), Timer, Crash]);
    mon::logged_first(&d);
    summary();
    reach("end");
}
pub fn c07_leader() {
    let mut d = D::new(&[3], 0);
    d.open(8 + choose(2, "locked"));
    w().crash = 1;
    w().wal_fail = 1;
    pick(&mut d, &[Check(true), Votes(1, 1, 2), Votes(1, 1, 0), Timer]);
    pick(&mut d, &[Votes(1, 1, 2), Votes(2, 1, 2), Votes(2, 1, 0), Timer, Crash]);
    mon::logged_first(&d);
    summary();
    reach("end");
}

/// C08: what the node proposes, checks and votes for.
pub fn c08_history() {
    let mut d = opened(&[1, 3], &[0, 1, 3, 4, 5, 8, 9]);
    for _ in 0..2 {
        pick(&mut d, &[Prop(0, 1), Prop(0, 2), Prop2(0, 1), Prop(1, 2), Locked(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(1, 1, 2), ChokesAt(0), Check(true), Timer, Crash]);
    }
    mon::proposals_right(&d);
    summary();
    reach("end");
}
/// The node comes to lead a round in every way there is.
pub fn c08_lead() {
    let mut d = opened(&[3], &[0, 1, 2, 3, 4, 5, 6, 7]);
    pick(&mut d, &[Prop(0, 1), QcAt(1, 0, 1), QcAt(1, 0, 0), Check(true), Timer, Crash]);
    pick(&mut d, &[QcAt(2, 0, 0), QcAt(1, 0, 1), QcAt(1, 0, 0), ChokesAt(0), Agg, Check(true), ChokeQc(2, 0)]);
    pick(&mut d, &[QcAt(2, 0, 0), ChokesAt(0), Check(true), Crash]);
    mon::proposals_right(&d);
    let mut n = 0u64;
    for e in w().log.iter() {
        if let Ev::Bcast(overlord::types::OverlordMsg::SignedProposal(_)) = e {
            n += 1;
        }
    }
    if n > 0 {
        reach("proposed");
    }
    summary();
    reach("end");
}

/// C13: order of what is signed.
pub fn c13_order() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 6, 8, 9]);
    pick(&mut d, &[Prop(0, 1), Prop(1, 2), Qc(1, 1), Qc(1, 0), Qc(2, 0), Agg, ChokeQc(1, 1), Timer, Crash, Status(1)]);
    pick(&mut d, &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 1, 0), Qc(2, 0), QcAt(2, 0, 1), Timer, Check(true), Crash]);
    mon::never_back(&d);
    summary();
    reach("end");
}
pub fn c13_deep() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 6, 8, 9]);
    for _ in 0..2 {
        pick(&mut d, &[Prop(0, 1), Prop(1, 2), Qc(1, 1), Qc(1, 0), Qc(2, 0), Qc(2, 1), Agg, ChokeQc(1, 1), Timer, Check(true), Crash, Status(1)]);
    }
    mon::never_back(&d);
    summary();
    reach("end");
}
pub fn c13_heights() {
    let mut d = opened(&[1, 3], &[1, 3, 5, 8, 9]);
    // timers, certificates and statuses of the old height at the new one
    d.own_height(1);
    pick(&mut d, &[Prop(0, 1), Timer, QcAt(2, 0, 0), Status(0), Crash]);
    d.old(1);
    pick(&mut d, &[Prop(0, 1), Prop(1, 1), Qc(1, 1), Qc(2, 1), Qc(2, 0), Agg, Timer, Check(true), Status(0), Crash]);
    pick(&mut d, &[Qc(2, 0), Timer, Check(true)]);
    mon::never_back(&d);
    summary();
    reach("end");
}

/// C15: reasons to leave a round.
pub fn c15_rounds() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 6, 7, 8]);
    pick(&mut d, &[Locked(1, 2), Qc(1, 1), Qc(1, 0), Qc(2, 0), Qc(2, 1), Chokes, Agg, ChokeQc(1, 1), ChokeQc(2, 0), Timer, Crash]);
    pick(&mut d, &[Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 1, 1), QcAt(2, 1, 0), ChokesAt(0), ChokesAt(1), Timer, Check(true), Crash]);
    mon::rounds_justified(&d);
    summary();
    reach("end");
}
pub fn c15_deep() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 6, 7, 8]);
    for _ in 0..2 {
        pick(&mut d, &[Prop(1, 2), Locked(1, 2), Qc(1, 1), Qc(1, 0), Qc(2, 0), Qc(2, 1), Chokes, Agg, ChokeQc(1, 1), ChokeQc(2, 0), Timer, Check(true), Crash]);
    }
    mon::rounds_justified(&d);
    summary();
    reach("end");
}
