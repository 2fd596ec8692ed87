//! C09: leader selection.
use crate::sym::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;

/// Any number below `n << bits`, split by its residue modulo `n`: the residue
/// is a case, the quotient stays symbolic.
fn split(n: u64, bits: u32, t: &'static str) -> u64 {
    let a = choose(n, "residue");
    vf_sym(bits, t.as_ptr(), t.len()) * n + a
}

fn nodes(n: u64) -> Vec<Node> {
    (0..n).map(|i| Node::new(addr(i as usize))).collect()
}
/// Weights are no matter for the rotation.
fn uneven(l: &mut [Node]) {
    match choose(3, "weights") {
        0 => {}
        1 => {
            l[0].propose_weight = 0;
            l[0].vote_weight = 3;
        }
        _ => {
            let k = l.len() - 1;
            l[k].propose_weight = 200;
        }
    }
}
/// A height or round of the running node: small, or beyond 32 bits.
fn far(n: u64, t: &'static str) -> u64 {
    let base = [0u64, (1 << 32) / n, (1 << 62) / n][choose(3, t) as usize] * n;
    base + split(n, 5, t)
}
/// Some reordering of the list.
fn shuffled(l: &[Node]) -> Vec<Node> {
    let mut v: Vec<Node> = l.to_vec();
    match choose(3, "shuffle") {
        0 => v.reverse(),
        1 => v.rotate_left(1),
        _ => {
            v.swap(0, l.len() - 1);
        }
    }
    v
}

/// Total and independent of the order, including the largest heights and rounds.
pub fn order() {
    let n = 1 + choose(6, "n");
    let any = |t| {
        if flip("top") {
            u64::MAX - 127 + split(n, 4, t)
        } else {
            split(n, 61, t)
        }
    };
    let h = any("h");
    let r = any("r");
    let l = nodes(n);
    let a = overlord::get_leader(h, r, l.clone());
    let b = overlord::get_leader(h, r, shuffled(&l));
    check(a == b, "C09: the leader does not depend on the order of the list");
    check(l.iter().any(|x| x.address == a), "C09: the leader is a member of the list");
    reach("end");
}
/// n consecutive rounds of a height: everybody once.
fn fair_in(max: u64, bits: u32) {
    let n = 2 + choose(max - 1, "n");
    let h = split(n, bits, "h");
    let r = split(n, bits, "r");
    let l = nodes(n);
    let mut seen = 0u32;
    for k in 0..n {
        let a = overlord::get_leader(h, r + k, l.clone());
        let bit = 1u32 << (a[0] & 31);
        check(seen & bit == 0, "C09: consecutive rounds give every validator one turn");
        seen |= bit;
    }
    reach("end");
}
pub fn fair() { fair_in(6, 5) }
pub fn fair_wide() { fair_in(7, 60) }
/// The next height has another leader.
fn heights_in(max: u64, bits: u32) {
    let n = 2 + choose(max - 1, "n");
    let h = split(n, bits, "h");
    let r = split(n, bits, "r");
    let l = nodes(n);
    let a = overlord::get_leader(h, r, l.clone());
    let b = overlord::get_leader(h + 1, r, l.clone());
    check(a != b, "C09: consecutive heights have different leaders");
    reach("end");
}
pub fn heights() { heights_in(6, 5) }
pub fn heights_wide() { heights_in(7, 60) }
/// Longer lists.
pub fn big() {
    let n = 8 + choose(33, "n");
    let h = split(n, 56, "h");
    let r = split(n, 56, "r");
    let mut l: Vec<Node> = (0..n).map(|i| Node::new(Bytes::from(vec![i as u8]))).collect();
    uneven(&mut l);
    let a = overlord::get_leader(h, r, l.clone());
    check(l.iter().any(|x| x.address == a), "C09: the leader is a member of the list");
    check(a != overlord::get_leader(h + 1, r, l.clone()), "C09: consecutive heights have different leaders");
    // two of n consecutive rounds, and what n turns each imply for the round after them
    let k = [1, n / 2, n - 1][choose(3, "later") as usize];
    check(a != overlord::get_leader(h, r + k, l.clone()), "C09: consecutive rounds give every validator one turn");
    check(a == overlord::get_leader(h, r + n, l.clone()), "C09: consecutive rounds give every validator one turn");
    l.reverse();
    check(a == overlord::get_leader(h, r, l), "C09: the leader does not depend on the order of the list");
    reach("end");
}
/// The running node follows the leader the helper names: it answers exactly
/// that validator's proposal and sends its vote there.
pub fn node_follows() {
    let n = 2 + choose(4, "n");
    let mut l = nodes(n);
    uneven(&mut l);
    let h = far(n, "h");
    let r = far(n, "r");
    assume(h > 0);
    let ldr = overlord::get_leader(h, r, l.clone());
    reset(0);
    assume(ldr != addr(0));
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, shuffled(&l), None);
    settle();
    let p = choose(n, "proposer") as usize;
    let n0 = w().log.len();
    deliver(OverlordMsg::SignedProposal(proposal(h, r, &hash(1), 1, None, p)));
    let mut voted = None;
    for e in &w().log[n0..] {
        if let Ev::Xmit(to, OverlordMsg::SignedVote(_)) = e {
            voted = Some(to.clone());
        }
    }
    if addr(p) == ldr {
        // before the first proposal of a restarted node its vote has no addressee
        check(voted.is_some(), "C09: the node answers the proposal of the leader the helper names");
        reach("leader");
    } else {
        check(voted.is_none(), "C09: the node ignores the proposal of any other validator");
        reach("other");
    }
    reach("end");
}
/// After a round change the vote goes to the leader of the new round.
pub fn node_votes_to() {
    let n = 2 + choose(4, "n");
    let mut l = nodes(n);
    uneven(&mut l);
    let h = far(n, "h");
    let r = far(n, "r");
    assume(h > 0);
    let ldr = overlord::get_leader(h, r + 1, l.clone());
    reset(0);
    assume(ldr != addr(0));
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, shuffled(&l), None);
    settle();
    let bm = 0xffu8 << (8 - n);
    deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h, r, &hash(0), bm)));
    let n0 = w().log.len();
    // the leader's own index is known on every path
    let p = (ldr[0] - 0xa0) as usize;
    deliver(OverlordMsg::SignedProposal(proposal(h, r + 1, &hash(1), 1, None, p)));
    let mut voted = None;
    for e in &w().log[n0..] {
        if let Ev::Xmit(to, OverlordMsg::SignedVote(_)) = e {
            voted = Some(to.clone());
        }
    }
    check(voted == Some(ldr), "C09: the vote goes to the leader the helper names");
    reach("end");
}
/// Same for a node that leads the next round: it proposes, and only then.
pub fn node_proposes() {
    let n = 2 + choose(4, "n");
    let mut l = nodes(n);
    uneven(&mut l);
    let h = far(n, "h");
    let r = far(n, "r");
    assume(h > 0);
    let ldr = overlord::get_leader(h, r + 1, l.clone());
    reset(0);
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, shuffled(&l), None);
    settle();
    let bm = 0xffu8 << (8 - n);
    deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h, r, &hash(0), bm)));
    let mut proposed = false;
    for e in &w().log {
        if let Ev::Bcast(OverlordMsg::SignedProposal(_)) = e {
            proposed = true;
        }
    }
    check(proposed == (ldr == addr(0)), "C09: the node proposes exactly when the helper names it");
    reach(if proposed { "proposed" } else { "silent" });
    reach("end");
}
/// Random option: weights decide, symbolic weights, seeds in a small range.
pub fn random_weights() {
    let n = 2 + choose(2, "n");
    let s = choose(12, "seed");
    let big = flip("big seed");
    let base = if big { u64::MAX - 5 } else { 0 };
    let h = base.wrapping_add(s);
    let mut l = nodes(n);
    let mut sum = 0u32;
    for x in l.iter_mut() {
        let wt = u8_("weight") as u32 & 15;
        x.set_propose_weight(wt);
        sum += wt;
    }
    let a = overlord::get_leader(h, 0, l.clone());
    check(l.iter().any(|x| x.address == a), "C09: the leader is a member of the list");
    for x in l.iter() {
        check((x.address != a) | (x.propose_weight != 0) | (sum == 0), "C09: a validator of weight zero never leads");
    }
    let b = overlord::get_leader(h, 0, shuffled(&l));
    check(a == b, "C09: the leader does not depend on the order of the list");
    reach("end");
}
/// Random option: only height plus round matter.
pub fn random_sum() {
    let s = choose(24, "seed");
    let k = choose(4, "round");
    let l: Vec<Node> = (0..4usize)
        .map(|i| {
            let mut x = Node::new(addr(i));
            x.set_propose_weight([3u32, 0, 1, 7][i]);
            x
        })
        .collect();
    let a = overlord::get_leader(100 + s, k, l.clone());
    let b = overlord::get_leader(100 + s + k, 0, l);
    check(a == b, "C09: selection depends on height plus round and the weights");
    reach("end");
}
/// Full range of weights, three validators.
pub fn random_wide() {
    let s = choose(4, "seed");
    let l: Vec<Node> = (0..3usize)
        .map(|i| {
            let mut x = Node::new(addr(i));
            x.set_propose_weight([u32::MAX, 0x8000_0000, 5][choose(3, "weight") as usize]);
            x
        })
        .collect();
    let a = overlord::get_leader(s, 0, l.clone());
    check(l.iter().any(|x| x.address == a), "C09: the leader is a member of the list");
    // the node itself uses the same sum
    reset(0);
    w().wal = Some(wal_record(s + 1, 0, PROPOSE, None, &init_from()));
    start(s + 1, 3000, l.clone(), None);
    settle();
    deliver(OverlordMsg::AggregatedVote(qc(&l, 2, s + 1, 0, &hash(0), 0xe0)));
    let ldr = overlord::get_leader(s + 1, 1, l.clone());
    let mut proposed = false;
    for e in &w().log {
        if let Ev::Bcast(OverlordMsg::SignedProposal(_)) = e {
            proposed = true;
        }
    }
    check(proposed == (ldr == addr(0)), "C09: the node proposes exactly when the helper names it");
    reach("end");
}
#[allow(dead_code)]
pub fn bytes_of(n: usize) -> Bytes {
    Bytes::from(vec![0u8; n])
}
