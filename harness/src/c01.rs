//! C01 and C02: what makes a certificate count, for every way it can arrive.
use crate::drive::*;
use crate::sym::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::WalInfo;

/// Ways a certificate can reach the node, with the certificate a node in the
/// prepared state has to act on: type, round offset, block.
pub const CARRIERS: u64 = 10;
fn target(c: u64) -> (u8, u64, u8) {
    match c {
        0 => (1, 0, 1),  // prevote certificate of the checked block
        1 => (1, 0, 0),  // prevote certificate for no block
        2 => (2, 0, 0),  // precommit certificate for no block
        3 => (2, 0, 1),  // precommit certificate of the checked block
        4 => (1, 2, 1),  // prevote certificate of a later round
        5 => (1, 0, 1),  // proof of lock in the proposal of the next round
        6 => (1, 0, 1),  // inside a choke
        7 => (2, 0, 0),  // inside a choke
        8 => (2, 0, 0),  // sent ahead for the next height
        _ => (2, 3, 1),  // precommit certificate of a later round
    }
}
/// Brings the node into the state the carrier needs.
fn prepare(d: &mut D, c: u64) {
    let r = d.r;
    match c {
        2 | 7 => d.boot(PRECOMMIT, None),
        5 => {
            // in round r, not locked, proposal of that round not yet seen
            d.boot(PROPOSE, None);
        }
        8 => d.boot(PROPOSE, None),
        _ => {
            d.boot(PROPOSE, None);
            d.proposal(0, 1, None);
            d.check_done(true);
        }
    }
    let _ = r;
}
fn count() -> usize {
    let mut n = 0;
    for e in w().log.iter() {
        match e {
            Ev::Wal(_) | Ev::Xmit(..) | Ev::Bcast(_) | Ev::Commit(..) | Ev::CheckReq { .. } | Ev::GetBlock(..) => n += 1,
            _ => {}
        }
    }
    n
}
/// Hands the certificate over; true if the node did anything visible.
fn carry(d: &mut D, c: u64, q: AggregatedVote, lock_round: u64) -> bool {
    let before = count();
    let h = d.h;
    match c {
        5 => {
            let off = 1;
            let p = d.leader(off);
            // the proposal of the node's round; its certificate is of the round before
            send(OverlordMsg::SignedProposal(proposal(h, d.r + off, &hash(1), 1, Some(PoLC { lock_round, lock_votes: q }), p)));
            settle();
        }
        6 => deliver(OverlordMsg::SignedChoke(choke(h, d.r + 1, UpdateFrom::PrevoteQC(q), 1))),
        7 => deliver(OverlordMsg::SignedChoke(choke(h, d.r + 1, UpdateFrom::PrecommitQC(q), 2))),
        8 => {
            deliver(OverlordMsg::AggregatedVote(q));
            check(count() == before, "C17: a certificate sent ahead has no effect yet");
            deliver(status(h + 1, &d.l));
            // whether this node leads the new height or not: it leaves the first round
            let mut left = false;
            for e in w().log.iter() {
                if let Ev::Wal(b) = e {
                    let x = parse_record(b);
                    left |= (x.h == h + 1) & (x.r > 0);
                }
            }
            return left;
        }
        _ => deliver(OverlordMsg::AggregatedVote(q)),
    }
    count() > before
}
/// The node of carrier 5 sits in round r + 1.
fn setup(c: u64, turns: &[u64]) -> D {
    let mut d = D::new(turns, 0);
    prepare(&mut d, c);
    if c == 5 {
        let r = d.r;
        d.qc(2, r, 0);
    }
    d
}

/// Weights and bitmap decide.
pub fn weights() {
    let c = choose(CARRIERS, "carrier");
    // the node never leads in the rounds used
    let mut d = D::new(&[1], 0);
    d.l[0].vote_weight = 1;
    let mut sum = 0u64;
    for i in 0..4 {
        let x = u32_("weight");
        d.l[i].vote_weight = x;
        d.l[i].propose_weight = 1 + choose(2, "pw") as u32 * 0;
        sum += x as u64;
    }
    if flip("order") {
        d.l.rotate_left(1);
        d.l.swap(0, 2);
    }
    w().commit_list = d.l.clone();
    prepare(&mut d, c);
    if c == 5 {
        // the round before was left because of an aggregated choke
        let r = d.r;
        d.choke_agg(r, 1);
    }
    let (t, off, b) = target(c);
    let bitmap = (choose(16, "bitmap") << 4) as u8 | [0u8, 0x0f][choose(2, "beyond") as usize];
    let (h, r) = if c == 8 { (d.h + 1, 0) } else { (d.h, d.r + off) };
    let q = qc(&d.l, t, h, r, &hash(b), bitmap);
    let mut acc = 0u64;
    for i in 0..4u8 {
        if bitmap & (0x80 >> i) != 0 {
            let a = addr(i as usize);
            for n in d.l.iter() {
                if n.address == a {
                    acc += n.vote_weight as u64;
                }
            }
        }
    }
    let enough = acc * 3 > sum * 2;
    let reacted = carry(&mut d, c, q.clone(), r);
    if reacted {
        check(enough, "C01: a certificate without two thirds of the weight has an effect");
        if c == 3 || c == 9 {
            end_commit_pause();
        }
        reach("enough");
    } else {
        check(!enough, "C01: a certificate with more than two thirds of the weight has no effect");
        reach("short");
    }
    summary();
    reach("end");
}

/// The signature has to be for exactly what the certificate says.
pub fn signatures() {
    let c = choose(CARRIERS, "carrier");
    let mut d = setup(c, &[1, 2]);
    let (t, off, b) = target(c);
    let (h, r) = if c == 8 { (d.h + 1, 0) } else { (d.h, d.r + off) };
    let l = d.l.clone();
    let bitmap = [MOST, ALL, 0xb0][choose(3, "bitmap") as usize];
    let (mut st, mut sh, mut sr, mut sb) = (t, h, r, b);
    let mut signers = marked(&l, &[bitmap]);
    let mut good = true;
    let mut sound = true;
    match choose(8, "signed") {
        0 => {}
        1 => {
            st = 3 - t;
            good = false;
        }
        2 => {
            sh = u64_("signed height");
            good = sh == h;
        }
        3 => {
            sr = u64_("signed round");
            good = sr == r;
        }
        4 => {
            sb = (b + 1 + choose(2, "signed block") as u8) % 3;
            good = false;
        }
        5 => {
            signers.pop();
            good = false;
        }
        6 => {
            signers = marked(&l, &[bitmap ^ 0x50]);
            good = false;
        }
        _ => {
            good = false;
            sound = false;
        }
    }
    let sig = sign_as(vote_bytes(st, sh, sr, &hash(sb)), signers, sound);
    let q = raw_qc(t, h, r, &hash(b), bitmap, sig);
    let reacted = carry(&mut d, c, q, r);
    check(!reacted | good, "C02: a certificate whose signature does not verify has an effect");
    check(reacted | !good, "C02: a certificate whose signature verifies has an effect");
    if !reacted && c != 8 {
        // it must not stand in the way of the right one either
        let q = qc(&l, t, h, r, &hash(b), MOST);
        let again = carry(&mut d, c, q, r);
        check(again, "C02: a forged certificate keeps the right one from being used");
        reach("recovered");
    }
    summary();
    reach("end");
}

/// A proof of lock belongs to its proposal.
pub fn lock_proofs() {
    let mut d = D::new(&[1, 2], 0);
    d.boot(PROPOSE, None);
    let l = d.l.clone();
    let (h, r) = (d.h, d.r);
    let qt = 1 + choose(2, "type") as u8;
    let qb = choose(3, "block") as u8;
    let qh = below(256, "qc height");
    let qr = below(256, "qc round");
    let lr = below(256, "lock round");
    let q = qc(&l, qt, qh, qr, &hash(qb), MOST);
    let p = d.leader(0);
    let before = count();
    deliver(OverlordMsg::SignedProposal(proposal(h, r, &hash(1), 1, Some(PoLC { lock_round: lr, lock_votes: q }), p)));
    let reacted = count() > before;
    let good = (qt == 1) & (qb == 1) & (qh == h) & (qr == lr) & (lr < r);
    check(!reacted | good, "C02: a proof of lock that does not fit the proposal has an effect");
    check(reacted | !good, "C02: a fitting proof of lock is accepted");
    summary();
    reach("end");
}

/// The same while locked: a proof that does not fit never unlocks.
pub fn lock_proofs_locked() {
    let mut d = D::new(&[1, 2], 0);
    let own = d.earlier();
    d.boot(PROPOSE, Some((own, 1)));
    let l = d.l.clone();
    let (h, r) = (d.h, d.r);
    let qt = 1 + choose(2, "type") as u8;
    let qb = choose(3, "block") as u8;
    let qh = below(256, "qc height");
    let qr = below(256, "qc round");
    let lr = below(256, "lock round");
    let q = qc(&l, qt, qh, qr, &hash(qb), MOST);
    let p = d.leader(0);
    deliver(OverlordMsg::SignedProposal(proposal(h, r, &hash(2), 2, Some(PoLC { lock_round: lr, lock_votes: q }), p)));
    // if it did not count, the timer makes the node prevote its lock
    d.last_timer();
    let good = (qt == 1) & (qb == 2) & (qh == h) & (qr == lr) & (lr < r);
    let mut voted = 0u8;
    for e in w().log.iter() {
        if let Ev::Xmit(_, OverlordMsg::SignedVote(v)) = e {
            if v.is_prevote() {
                voted = crate::mon::block_of(&v.vote.block_hash);
            }
        }
    }
    check((voted != 2) | good, "C02: a proof of lock that does not fit unlocks");
    check((voted != 2) | good, "C04: an invalid proof of lock unlocks");
    check((voted != 2) | (lr > own), "C04: a proof of lock that is not newer unlocks");
    check((voted == 2) | !(good & (lr > own)), "C04: a newer proof of lock is followed");
    check(voted != 0, "C04: a locked node prevotes");
    summary();
    reach("end");
}
pub fn _u(_: Bytes) {}

/// A genuine certificate first, then one that is not, perhaps with the same
/// signature: what was verified once proves nothing else.
pub fn replayed() {
    let mut d = D::new(&[1, 2, 3], 0);
    d.boot(PROPOSE, None);
    let (h, r) = (d.h, d.r);
    let pending = match choose(3, "block") {
        0 => {
            d.proposal(0, 1, None);
            false
        }
        1 => {
            d.proposal(0, 1, None);
            d.check_done(true);
            false
        }
        _ => {
            d.proposal(0, 1, None);
            true
        }
    };
    // the genuine one: prevotes for the block, prevotes for none, precommits for none
    let g = choose(3, "genuine");
    let (gt, gb) = [(1u8, 1u8), (1, 0), (2, 0)][g as usize];
    let l = d.l.clone();
    let first = qc(&l, gt, h, r, &hash(gb), MOST);
    if g == 2 && flip("in a choke") {
        deliver(OverlordMsg::SignedChoke(choke(h, r + 1, UpdateFrom::PrecommitQC(first.clone()), 1)));
    } else {
        deliver(OverlordMsg::AggregatedVote(first.clone()));
    }
    let at = if g == 2 { r + 1 } else { r };
    // the forged one
    let t = 1 + choose(2, "type") as u8;
    let b = choose(3, "hash") as u8;
    let off = choose(3, "round");
    let m = [MOST, ALL][choose(2, "bitmap") as usize];
    let sig = if flip("same signature") { first.signature.signature.clone() } else { token(200) };
    assume(sig != first.signature.signature || (t, b, off, m) != (gt, gb, 0, MOST));
    let q = raw_qc(t, h, r + off, &hash(b), m, sig);
    match choose(3, "carrier") {
        0 => deliver(OverlordMsg::AggregatedVote(q)),
        1 => {
            let from = if t == 1 { UpdateFrom::PrevoteQC(q) } else { UpdateFrom::PrecommitQC(q) };
            deliver(OverlordMsg::SignedChoke(choke(h, r + 3, from, 2)));
        }
        _ => {
            let off = at - r;
            let p = d.leader(off);
            assume(p != 0);
            let lock = Some(PoLC { lock_round: q.round, lock_votes: q });
            deliver(OverlordMsg::SignedProposal(proposal(h, at, &hash(2), 2, lock, p)));
        }
    }
    if pending {
        d.check_done(true);
    }
    for e in w().log.iter() {
        match e {
            Ev::Commit(..) => check(false, "C02: a forged certificate makes the node commit"),
            Ev::Wal(x) => {
                let x: WalInfo<Blk> = rlp::decode(x).unwrap();
                check(x.round <= at, "C02: a forged certificate moves the node to another round");
                if let Some(k) = x.lock {
                    check((g == 0) & (k.lock_round == r) & (k.lock_votes.block_hash == hash(1)), "C02: a forged certificate locks the node");
                }
            }
            Ev::Xmit(_, OverlordMsg::SignedVote(v)) => {
                let b = crate::mon::block_of(&v.vote.block_hash);
                check(b != 2, "C02: a vote because of a forged proof of lock");
                check(v.is_prevote() | (b == 0) | (g == 0), "C02: a precommit because of a forged certificate");
            }
            _ => {}
        }
    }
    reach("end");
}
