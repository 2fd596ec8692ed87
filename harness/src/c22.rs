//! C22: chokes bring a node that is behind to their round.
use crate::drive::*;
use crate::hist::{opened, pick, E::*};
use crate::mon;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;

/// The choke this node sends last, if it sent one.
fn sent() -> Option<SignedChoke> {
    let mut x = None;
    for e in w().log.iter() {
        if let Ev::Bcast(OverlordMsg::SignedChoke(c)) = e {
            x = Some(c.clone());
        }
    }
    x
}
/// No message in time, until the node chokes.
fn wait_choke(d: &mut D) {
    let n = w().log.len();
    for _ in 0..4 {
        let choked = w().log.iter().skip(n).any(|e| matches!(e, Ev::Bcast(OverlordMsg::SignedChoke(_))));
        if choked {
            return;
        }
        d.last_timer();
    }
}
/// Chokes at any time.
pub fn c22_sent() {
    let mut d = opened(&[1], &[0, 3, 6, 8]);
    pick(&mut d, &[Qc(1, 1), Qc(1, 0), Qc(2, 0), ChokesAt(0), Agg, ChokeQc(2, 0)]);
    pick(&mut d, &[Qc(1, 0), Qc(2, 0), ChokesAt(1), Timer, Crash]);
    wait_choke(&mut d);
    mon::chokes_right(&d);
    summary();
    reach("end");
}
pub fn c22_deep() {
    let mut d = opened(&[1, 3], &[0, 2, 3, 4, 6, 7, 8, 9]);
    for _ in 0..2 {
        pick(&mut d, &[Qc(1, 1), Qc(1, 0), Qc(2, 0), Chokes, ChokesAt(0), Agg, ChokeQc(1, 0), ChokeQc(2, 0), Timer, Check(true), Crash, Status(1)]);
    }
    pick(&mut d, &[Qc(1, 0), Qc(2, 0), ChokesAt(1), Agg, Timer, Crash]);
    wait_choke(&mut d);
    mon::chokes_right(&d);
    summary();
    reach("end");
}
/// A crash before any effect on the way to the choke.
pub fn c22_crash() {
    let mut d = D::new(&[1, 3], 0);
    d.open([0, 3, 4, 6][choose(4, "open") as usize]);
    w().crash = 1;
    pick(&mut d, &[Qc(1, 0), Qc(2, 0), ChokesAt(0), Agg, QcAt(1, 1, 0)]);
    wait_choke(&mut d);
    wait_choke(&mut d);
    mon::chokes_right(&d);
    summary();
    reach("end");
}
/// The node leads and makes the certificate itself.
pub fn c22_leader() {
    let mut d = D::new(&[3], 0);
    d.open(8 + choose(2, "locked"));
    pick(&mut d, &[Check(true), Votes(1, 1, 2), Votes(1, 1, 0), Votes(2, 1, 0), Timer]);
    pick(&mut d, &[Votes(1, 1, 2), Votes(1, 1, 0), Votes(2, 1, 0), ChokesAt(1), Crash]);
    wait_choke(&mut d);
    mon::chokes_right(&d);
    summary();
    reach("end");
}
/// Another node of the height, in any lower round, receives the choke.
pub fn c22_followed() {
    let mut d = opened(&[1, 3], &[0, 4, 6, 8]);
    pick(&mut d, &[Qc(1, 0), Qc(2, 0), ChokesAt(0), Agg, ChokeQc(1, 0), ChokeQc(2, 0), QcAt(1, 1, 1)]);
    pick(&mut d, &[Timer, Crash, Check(true)]);
    wait_choke(&mut d);
    let c = match sent() {
        Some(c) => c,
        None => return,
    };
    let (h, r) = (c.choke.height, c.choke.round);
    // a prevote certificate of a node's own round does not end that round
    let own = if let UpdateFrom::PrevoteQC(_) = &c.choke.from { 1 } else { 0 };
    let block = match &c.choke.from {
        UpdateFrom::PrevoteQC(q) => mon::block_of(&q.block_hash),
        UpdateFrom::PrecommitQC(q) => {
            if q.signature.signature.is_empty() {
                return;
            }
            0
        }
        _ => 0,
    };
    let lower = below(160, "lower round");
    assume((lower + own < r) & (r > 0));
    let sigs = std::mem::take(&mut w().sigs);
    reset(2);
    w().sigs = sigs;
    w().own_block = 2;
    w().commit_list = d.l.clone();
    w().wal = Some(if block == 0 {
        wal_record(h, lower, PROPOSE, None, &init_from())
    } else {
        // it has checked the block: it is its lock
        let lr = below(128, "lock of the other");
        assume(lr < lower);
        let q = qc(&d.l, 1, h, lr, &hash(block), ALL);
        wal_record(h, lower, PROPOSE, Some((lr, &q, block)), &init_from())
    });
    start(h, 3000, d.l.clone(), None);
    settle();
    send(OverlordMsg::SignedChoke(c));
    settle();
    let mut there = false;
    for e in w().log.iter() {
        if let Ev::Wal(x) = e {
            let x = parse_record(x);
            there |= (x.h == h) & (x.r == r);
        }
    }
    check(there, "C22: a choke brings a node to its round");
    reach("followed");
}
