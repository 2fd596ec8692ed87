//! C21: with timely messages a node does its part of every round.
use crate::diff::round_timers;
use crate::drive::*;
use crate::hist::E::*;
use crate::hist::{apply, E};
use crate::mon::{block_of, tnum};
use crate::sym::*;
use crate::world::*;
use overlord::types::*;

/// It sent its vote to the leader.
fn voted(m: usize, t: u8, h: u64, r: u64, b: u8, to: usize) -> bool {
    let mut x = false;
    for e in w().log[m..].iter() {
        if let Ev::Xmit(a, OverlordMsg::SignedVote(v)) = e {
            if *a == addr(to) && tnum(&v.vote.vote_type) == t && block_of(&v.vote.block_hash) == b {
                x |= (v.vote.height == h) & (v.vote.round == r);
            }
        }
    }
    x
}
fn committed(m: usize, h: u64, b: u8) -> bool {
    let mut x = false;
    for e in w().log[m..].iter() {
        if let Ev::Commit(at, c) = e {
            x |= (block_of(&c.proof.block_hash) == b) & (*at == h);
        }
    }
    x
}
fn certified(m: usize, t: u8, h: u64, r: u64, b: u8) -> bool {
    let mut x = false;
    for e in w().log[m..].iter() {
        if let Ev::Bcast(OverlordMsg::AggregatedVote(q)) = e {
            if tnum(&q.vote_type) == t && block_of(&q.block_hash) == b {
                x |= (q.height == h) & (q.round == r);
            }
        }
    }
    x
}
fn proposed(m: usize, h: u64, r: u64) -> Option<u8> {
    for e in w().log[m..].iter() {
        if let Ev::Bcast(OverlordMsg::SignedProposal(p)) = e {
            let p = &p.proposal;
            if concrete((p.height ^ h) | (p.round ^ r)) == 0 {
                return Some(block_of(&p.block_hash));
            }
        }
    }
    None
}
fn choked(m: usize, h: u64, r: u64) -> u64 {
    let mut n = 0;
    for e in w().log[m..].iter() {
        if let Ev::Bcast(OverlordMsg::SignedChoke(c)) = e {
            n += ((c.choke.height == h) & (c.choke.round == r)) as u64;
        }
    }
    n
}
/// Where the log stands.
fn place() -> (u64, u64, u8, u8) {
    let mut x = (0, 0, 0, 0);
    for e in w().log.iter() {
        if let Ev::Wal(b) = e {
            let k = parse_record(b);
            x = (k.h, k.r, k.step, k.lock.map_or(0, |l| l.2));
        }
    }
    x
}
/// All open checks pass.
fn checks(d: &mut D) {
    for i in open_checks() {
        finish_check(i, true);
        settle();
    }
    d.revive();
}
fn last_round_timer() {
    if let Some(i) = round_timers().last() {
        fire(*i);
    }
}

/// Orders of: the proposal, its check, the prevote and the precommit certificate.
const ORDERS: &[&[u8]] = &[
    &[0, 1, 2, 3],
    &[0, 2, 1, 3],
    &[2, 0, 1, 3],
    &[0, 2, 3, 1],
    &[0, 3, 1, 2],
    &[0, 1, 3, 2],
    &[3, 0, 1, 2],
    &[2, 3, 0, 1],
    &[0, 3, 2, 1],
];
/// A round in which everything comes in time; the node has just entered it.
fn good_round(d: &mut D, m: usize, lock: u8, orders: u64) {
    let (h, r) = (d.h, d.r);
    let p = d.leader(0);
    if p != 0 {
        let b = if lock != 0 { lock } else { 1 };
        let o = choose(orders, "order") as usize;
        for x in ORDERS[o].iter() {
            match x {
                0 => d.proposal(0, b, None),
                1 => checks(d),
                2 => d.qc(1, r, b),
                _ => d.qc(2, r, b),
            }
            if *x == 0 && o < 2 {
                check(voted(m, 1, h, r, b, p), "C21: a follower prevotes the proposal");
            }
            if o < 2 && *x as usize == 2 - o {
                check(voted(m, 2, h, r, b, p), "C21: a follower precommits what has a prevote certificate and passed its check");
            }
        }
        reach("followed");
        check(committed(m, h, b), "C21: a follower commits");
        return;
    }
    // this node leads
    let b = proposed(m, h, r);
    check(b.is_some(), "C21: the leader proposes");
    let b = b.unwrap();
    if lock != 0 {
        check(b == lock, "C21: the leader proposes its lock");
    }
    // the one that is silent
    let silent = 1 + choose(3, "silent") as usize;
    let o = choose(3, "order");
    if o == 0 {
        checks(d);
    }
    for i in 1..4 {
        if i != silent {
            d.vote(1, 0, b, i);
        }
    }
    if o == 1 {
        checks(d);
    }
    check(certified(m, 1, h, r, b), "C21: the leader certifies prevotes");
    for i in 1..4 {
        if i != silent {
            d.vote(2, 0, b, i);
        }
    }
    if o == 2 {
        checks(d);
    }
    check(certified(m, 2, h, r, b), "C21: the leader certifies precommits");
    check(committed(m, h, b), "C21: the leader commits");
    reach("led");
}
/// A round in which nothing comes, or only certificates for no block.
fn bad_round(d: &mut D, m: usize, lock: u8) {
    let (h, r) = (d.h, d.r);
    let p = d.leader(0);
    let k = choose(5, "what comes");
    if p != 0 && k == 4 {
        // everything but the precommits
        let b = if lock != 0 { lock } else { 1 };
        d.proposal(0, b, None);
        checks(d);
        d.qc(1, r, b);
        check(voted(m, 2, h, r, b, p), "C21: a follower precommits what has a prevote certificate and passed its check");
    } else if p != 0 && k != 3 {
        last_round_timer();
        check(voted(m, 1, h, r, lock, p), "C21: a follower prevotes when the proposal is late");
        if k == 1 {
            d.qc(1, r, 0);
        } else {
            last_round_timer();
        }
        check(voted(m, 2, h, r, 0, p), "C21: a follower precommits no block when there is no certificate");
    } else {
        if p != 0 {
            d.qc(1, r, 0);
            check(voted(m, 2, h, r, 0, p), "C21: a follower precommits no block when that is certified");
        } else {
            check(proposed(m, h, r).is_some(), "C21: the leader proposes");
            last_round_timer();
            if lock == 0 && k == 3 {
                d.votes(1, 0, 0);
                check(certified(m, 1, h, r, 0), "C21: the leader certifies prevotes for no block");
                d.votes(2, 0, 0);
                check(certified(m, 2, h, r, 0), "C21: the leader certifies precommits for no block");
                let x = place();
                check((x.0 == h) & (x.1 == r + 1), "C21: a certificate for no block ends the round");
                reach("led");
                return;
            }
        }
    }
    if k == 2 {
        d.qc(2, r, 0);
        let x = place();
        check((x.0 == h) & (x.1 == r + 1), "C21: a certificate for no block ends the round");
        reach("skipped");
        return;
    }
    if choked(m, h, r) == 0 {
        last_round_timer();
    }
    check(choked(m, h, r) > 0, "C21: a node without a certificate chokes");
    let n = choked(m, h, r);
    last_round_timer();
    check(choked(m, h, r) > n, "C21: a choke is repeated");
    for i in 1..4 {
        d.choke(r, i);
    }
    let x = place();
    check((x.0 == h) & (x.1 == r + 1), "C21: chokes end the round");
    reach("choked");
}
/// Enters a fresh round or height; says from where on the log is new.
fn enter(d: &mut D, ways: &[u64]) -> usize {
    let r = d.r;
    let m = w().log.len();
    match ways[choose(ways.len() as u64, "way") as usize] {
        0 => {
            d.qc(2, r + 2, 0);
            d.later(3);
        }
        1 => {
            d.choke_agg(r + 2, 1);
            d.later(3);
        }
        _ => d.own_height(1),
    }
    let x = place();
    check((x.0 == d.h) & (x.1 == d.r), "C21: the node enters the round");
    m
}
const PAST: &[E] = &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 0), QcAt(1, 1, 1), QcAt(2, 0, 0), Agg0, Timer, Check(true), Check(false), Crash, Votes(1, 1, 2), Votes(1, 1, 0), ChokesAt(0)];
#[allow(non_upper_case_globals)]
const Agg0: E = QcAt(2, 1, 0);

fn round(turns: &[u64], opens: &[u64], past: &[E], n: u64, ways: &[u64], good: bool, orders: u64) {
    let mut d = D::new(turns, 0);
    let k = opens[choose(opens.len() as u64, "open") as usize];
    d.open(k);
    for _ in 0..n {
        let i = choose(past.len() as u64, "event") as usize;
        apply(&mut d, past[i]);
    }
    let m = enter(&mut d, ways);
    let lock = place().3;
    if good {
        good_round(&mut d, m, lock, orders);
    } else {
        bad_round(&mut d, m, lock);
    }
    reach("end");
}
pub fn c21_good() {
    round(&[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 7, 8], PAST, 1, &[0, 1, 2], true, 2)
}
pub fn c21_orders() {
    round(&[1, 3], &[0, 3, 5], &[], 0, &[0, 2], true, 9)
}
pub fn c21_bad() {
    round(&[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 7, 8], PAST, 1, &[0, 1, 2], false, 1)
}
pub fn c21_goodd() {
    round(&[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], PAST, 2, &[0, 1, 2], true, 9)
}
pub fn c21_badd() {
    round(&[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], PAST, 2, &[0, 1, 2], false, 1)
}
/// One height after the other, each committed in its first round.
fn heights(n: u64, orders: u64) {
    let turn = choose(4, "turn");
    let mut d = D::new(&[turn], 0);
    d.open(0);
    let mut m = enter(&mut d, &[2]);
    for _ in 0..n {
        good_round(&mut d, m, 0, orders);
        m = w().log.len();
        end_commit_pause();
        d.enter(1);
        let x = place();
        check((x.0 == d.h) & (x.1 == 0), "C21: a commit begins the next height");
    }
    bad_round(&mut d, m, 0);
    reach("end");
}
pub fn c21_heights() {
    heights(2, 2)
}
pub fn c21_heightsd() {
    heights(4, 2)
}

/// The check passes when the round of the certificate is over.
pub fn c21_late() {
    let mut d = D::new(&[1, 2, 3], 0);
    d.open(1);
    let (h, r) = (d.h, d.r);
    let m = w().log.len();
    let when = choose(3, "certificate");
    if when == 0 {
        d.qc(2, r, 1);
    }
    match choose(4, "between") {
        0 => {}
        1 => d.choke_agg(r, 1),
        2 => d.choke_agg(r + 4, 2),
        _ => {
            for _ in 0..3 {
                last_round_timer();
            }
            for i in 1..4 {
                d.choke(r, i);
            }
        }
    }
    if when == 1 {
        d.qc(2, r, 1);
    }
    checks(&mut d);
    if when == 2 {
        d.qc(2, r, 1);
    }
    check(committed(m, h, 1), "C21: what is certified is committed once its check has passed");
    end_commit_pause();
    let x = place();
    check((x.0 == h + 1) & (x.1 == 0), "C21: a commit begins the next height");
    reach("end");
}
