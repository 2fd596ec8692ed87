//! C08: proposals of all kinds, from anyone.
use crate::drive::*;
use crate::hist::{apply, E::*};
use crate::mon;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;

/// A proof of lock for block 1 in a proposal of round `r`, and whether it holds.
fn a_lock(d: &mut D, k: u64, r: u64) -> (Option<PoLC>, bool) {
    if k == 0 {
        return (None, true);
    }
    let h = d.h;
    let lr = below(256, "lock round");
    let good = |l: &[Node], t, h, lr, b: u8, m| qc(l, t, h, lr, &hash(b), m);
    let v = match k {
        1 | 8 => good(&d.l, 1, h, lr, 1, MOST),
        2 => good(&d.l, 2, h, lr, 1, MOST),
        3 => good(&d.l, 1, h, lr, 1, HALF),
        4 => {
            let mut q = good(&d.l, 1, h, lr, 1, MOST);
            q.signature.signature = token(200);
            q
        }
        5 => good(&d.l, 1, h + 1, lr, 1, MOST),
        6 => {
            let o = below(256, "other round");
            assume(o != lr);
            good(&d.l, 1, h, o, 1, MOST)
        }
        _ => good(&d.l, 1, h, lr, 2, MOST),
    };
    if k == 8 {
        assume(lr >= r);
    } else {
        assume(lr < r);
    }
    if k == 1 {
        d.cert(1, h, lr, 1);
    }
    (Some(PoLC { lock_round: lr, lock_votes: v }), k == 1)
}
fn bytes_of(p: &Proposal<Blk>) -> bytes::Bytes {
    bytes::Bytes::from(rlp::encode(p).to_vec())
}
/// A proposal of block 1 for the round base + `off`, and whether it is right.
fn a_proposal(d: &mut D, off: u64, locks: &[u64]) -> (SignedProposal<Blk>, bool) {
    let (h, r) = (d.h, d.r + off);
    let leader = d.leader(off);
    let who = match choose(4, "proposer") {
        0 => leader,
        1 => (leader + 1) % 4,
        2 => 6,
        _ => d.leader(off + 1),
    };
    let k = locks[choose(locks.len() as u64, "lock") as usize];
    let (lock, lock_ok) = a_lock(d, k, r);
    let p = Proposal { height: h, round: r, content: Blk(1), block_hash: hash(1), lock, proposer: addr(who) };
    let mut x = p.clone();
    let how = choose(9, "signature");
    let (signature, signed) = match how {
        0 => (sign_as(bytes_of(&p), vec![addr(who)], true), true),
        1 => (sign_as(bytes_of(&p), vec![addr(who)], false), false),
        2 => (token(220), false),
        3 => {
            let o = (who + 1) % 4;
            (sign_as(bytes_of(&p), vec![addr(o)], true), false)
        }
        4 => (sign_as(bytes_of(&p), vec![addr(who), addr(3)], true), false),
        5 => {
            x.content = Blk(3);
            (sign_as(bytes_of(&x), vec![addr(who)], true), false)
        }
        6 => {
            x.round = below(256, "signed round");
            assume(x.round != r);
            (sign_as(bytes_of(&x), vec![addr(who)], true), false)
        }
        7 => {
            x.height = h + 1;
            (sign_as(bytes_of(&x), vec![addr(who)], true), false)
        }
        _ => {
            if x.lock.is_some() {
                x.lock = None;
            } else {
                x.proposer = addr((who + 1) % 4);
            }
            (sign_as(bytes_of(&x), vec![addr(who)], true), false)
        }
    };
    (SignedProposal { signature, proposal: p }, signed && lock_ok && who == leader)
}
/// What of block `b` is checked or voted for.
fn used(from: usize, b: u8) -> (bool, bool) {
    let (mut c, mut v) = (false, false);
    for e in w().log[from..].iter() {
        match e {
            Ev::CheckReq { hash, .. } => c |= mon::block_of(hash) == b,
            Ev::Xmit(_, OverlordMsg::SignedVote(x)) => v |= mon::block_of(&x.vote.block_hash) == b && x.vote.vote_type == VoteType::Prevote,
            _ => {}
        }
    }
    (c, v)
}
fn inputs(turns: &[u64], opens: &[u64], offs: &[u64], locks: &[u64], later: &[crate::hist::E]) {
    let mut d = D::new(turns, 0);
    let k = opens[choose(opens.len() as u64, "open") as usize];
    // nothing is known of block 1
    d.open(k);
    let off = offs[choose(offs.len() as u64, "off") as usize];
    if d.leader(off) == 0 {
        vf_done();
    }
    let m = w().log.len();
    let (p, valid) = a_proposal(&mut d, off, locks);
    let b = mon::block_of(&p.proposal.block_hash);
    let polc = p.proposal.lock.as_ref().map(|x| x.lock_round);
    let (h, r) = (d.h, d.r + off);
    w().log.push(Ev::InProp { h, r, b, content: 1, valid, polc });
    deliver(OverlordMsg::SignedProposal(p));
    let (c, v) = used(m, 1);
    if !valid {
        check(!c && !v, "C08: only a right proposal of the leader is checked and voted for");
        check(w().log.len() == m + 1, "C08: a wrong proposal has no effect");
    } else if c {
        reach("acted");
    }
    // what comes next does not make it right
    let e = later[choose(later.len() as u64, "later") as usize];
    apply(&mut d, e);
    if !valid {
        let (c, v) = used(m, 1);
        check(!c && !v, "C08: a wrong proposal is not used later");
    }
    // and does not stand in the way of the right one
    if !valid && off == 0 && k != 8 {
        if let Timer = e {
            d.proposal(0, 2, None);
            let (c, _) = used(m, 2);
            check(c, "C08: a wrong proposal does not stand in the way of a right one");
        }
    }
    mon::proposals_right(&d);
    summary();
    reach("end");
}
pub fn c08_inputs() {
    inputs(&[1], &[0], &[0, 1], &[0, 1, 2, 3, 4, 5, 6, 7, 8], &[Timer, QcAt(2, 0, 0)])
}
/// After a round on the next.
pub fn c08_next() {
    inputs(&[2], &[5, 8], &[1], &[0, 1, 4, 6], &[QcAt(2, 0, 0), ChokesAt(0), QcAt(2, 1, 0)])
}
pub fn c08_inputsd() {
    inputs(&[1, 2, 3], &[0, 5, 6, 8], &[0, 1, 2], &[0, 1, 2, 3, 4, 5, 6, 7, 8], &[Timer, QcAt(2, 0, 0), ChokesAt(0), QcAt(1, 0, 0), QcAt(2, 1, 0), Agg])
}
