//! C10: the leader counts votes.
use crate::drive::*;
use crate::mon::*;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;

struct Cast {
    t: u8,
    b: u8,
    voter: usize,
}
fn own_qcs() -> Vec<(u8, u8, AggregatedVote)> {
    let mut v = Vec::new();
    for e in w().log.iter() {
        if let Ev::Bcast(OverlordMsg::AggregatedVote(q)) = e {
            v.push((tnum(&q.vote_type), block_of(&q.block_hash), q.clone()));
        }
    }
    v
}
fn weight(d: &D, who: &[usize]) -> u64 {
    let mut s = 0u64;
    for n in d.l.iter() {
        let mut is = false;
        for i in who {
            is |= n.address == addr(*i);
        }
        if is {
            s += n.vote_weight as u64;
        }
    }
    s
}

/// Judges what has been broadcast against the votes cast so far.  The first
/// vote of a validator for a round and type counts.
fn judge(d: &D, h: u64, r: u64, cast: &[Cast], own: &[Cast], moment: &'static str) {
    let mut sum = 0u64;
    for n in d.l.iter() {
        sum += n.vote_weight as u64;
    }
    let qcs = own_qcs();
    for t in 1..3u8 {
        // first votes only
        let mut first: Vec<(usize, u8)> = Vec::new();
        for c in own.iter().chain(cast.iter()) {
            if c.t == t && !first.iter().any(|(v, _)| *v == c.voter) {
                first.push((c.voter, c.b));
            }
        }
        for b in 0..3u8 {
            // nothing changed for the others since the last look
            if let Some(c) = cast.last() {
                if cast.len() > 1 && (c.t != t || c.b != b) && !own.iter().any(|c| c.t == t && c.b == b) {
                    continue;
                }
            }
            let who: Vec<usize> = first.iter().filter(|(_, x)| *x == b).map(|(v, _)| *v).collect();
            if who.is_empty() {
                check(!qcs.iter().any(|(x, y, _)| *x == t && *y == b), "C10: a certificate without votes");
                continue;
            }
            let enough = weight(d, &who) * 3 > sum * 2;
            let mine: Vec<&AggregatedVote> = qcs.iter().filter(|(x, y, _)| *x == t && *y == b).map(|(_, _, q)| q).collect();
            if mine.is_empty() {
                check(!enough, moment);
                continue;
            }
            reach("certificate");
            let q = mine[mine.len() - 1];
            check((q.height == h) & (q.round == r), "C10: a certificate is for the round of its votes");
            check(q.leader == addr(0), "C10: a certificate names its leader");
            check(q.signature.address_bitmap.len() == 1, "C10: the bitmap has one bit for each validator");
            let m = marked(&d.l, &q.signature.address_bitmap);
            let mut sub = true;
            let mut ws: Vec<usize> = Vec::new();
            for a in m.iter() {
                let i = (a[0] - 0xa0) as usize;
                ws.push(i);
                sub &= who.contains(&i);
            }
            check(sub, "C10: the bitmap marks voters only");
            check(weight(d, &ws) * 3 > sum * 2, "C10: a certificate has more than two thirds of the weight");
            check(verifies(&q.signature.signature, &vote_bytes(t, h, r, &hash(b)), &m), "C10: the signature is that of the marked voters");
        }
    }
}

/// The node's own votes of this round.
fn own_votes(r: u64) -> Vec<Cast> {
    let mut own = vec![Cast { t: 1, b: 2, voter: 0 }];
    for e in w().log.iter() {
        if let Ev::Wal(x) = e {
            let rec = parse_record(x);
            if rec.step == PRECOMMIT && rec.r == r && !own.iter().any(|c| c.t == 2) {
                let b = match rec.lock {
                    Some((_, q, _)) => block_of(&q.block_hash),
                    None => 0,
                };
                own.push(Cast { t: 2, b, voter: 0 });
            }
        }
    }
    own
}
fn over() -> bool {
    own_qcs().iter().any(|q| q.0 == 2) || w().log.iter().any(|e| matches!(e, Ev::Commit(..)))
}

/// Any votes with symbolic weights, the node leads the current round.
fn counted(events: usize, checked: bool) {
    let mut d = D::at(200, 7);
    let high = choose(2, "scale") * 24;
    for i in 0..4 {
        d.l[i].vote_weight = (below(16, "weight") as u32) << high;
    }
    if flip("order") {
        d.l.reverse();
    }
    w().commit_list = d.l.clone();
    d.boot(PREVOTE, None);
    let r0 = d.r;
    // go to the next round because of an aggregated choke
    d.choke_agg(r0, 1);
    let (h, r) = (d.h, d.r + 1);
    let mut cast: Vec<Cast> = Vec::new();
    judge(&d, h, r, &cast, &own_votes(r), "C10: a certificate is missing after the own vote");
    if checked {
        d.check_done(true);
    }
    for _ in 0..events {
        if over() {
            break;
        }
        let t = 1 + choose(2, "type") as u8;
        let b = choose(2, "block") as u8 * 2;
        let who = choose(3, "voter") as usize + 1;
        deliver(OverlordMsg::SignedVote(vote(t, h, r, &hash(b), who)));
        cast.push(Cast { t, b, voter: who });
        judge(&d, h, r, &cast, &own_votes(r), "C10: a certificate is missing");
    }
    summary();
    reach("end");
}
pub fn weighted() {
    counted(2, flip("checked"))
}
pub fn weighted_deep() {
    counted(3, flip("checked"))
}

/// Votes with all kinds of flaws, equal weights.
fn flawed(kinds: u64) {
    let mut d = D::new(&[3], 0);
    for i in 0..4 {
        d.l[i].propose_weight = [9, 1, 1, 7][i];
        d.l[i].vote_weight = 3;
    }
    if flip("order") {
        d.l.reverse();
    }
    w().commit_list = d.l.clone();
    d.boot(PREVOTE, None);
    let r0 = d.r;
    d.choke_agg(r0, 1);
    let (h, r) = (d.h, d.r + 1);
    let t = 1 + choose(2, "type") as u8;
    let mut b = 2;
    if t == 2 {
        // the node precommits: nothing, or its block
        if flip("nothing") {
            b = 0;
            d.last_timer();
            d.last_timer();
        } else {
            d.check_done(true);
            d.qc(1, r, 2);
        }
    }
    let base = own_qcs().len();
    check(base == 0, "C10: no certificate without votes");
    let mut cast: Vec<Cast> = Vec::new();
    for i in 1..4usize {
        if over() {
            break;
        }
        let mut good = false;
        let k = choose(kinds, "kind");
        let mut v = vote(t, h, r, &hash(b), i);
        match k {
            0 => good = true,
            1 => continue,
            2 => {
                // another block first
                deliver(OverlordMsg::SignedVote(vote(t, h, r, &hash(1), i)));
                cast.push(Cast { t, b: 1, voter: i });
            }
            3 => {
                deliver(OverlordMsg::SignedVote(v.clone()));
                cast.push(Cast { t, b, voter: i });
            }
            4 => v.signature = sign_as(vote_bytes(t, h, r, &hash(b)), vec![addr(i)], false),
            5 => v.signature = sign_as(vote_bytes(t, h, r, &hash(b)), vec![addr(1 + i % 3)], true),
            6 => v.signature = sign_as(vote_bytes(3 - t, h, r, &hash(b)), vec![addr(i)], true),
            7 => v = vote(t, h, r + 1, &hash(b), i),
            8 => {
                // somebody who is not in the list
                v = vote(t, h, r, &hash(b), 7);
            }
            9 => {
                // a signature for another round
                let r2 = below(256, "signed round");
                v.signature = sign_as(vote_bytes(t, h, r2, &hash(b)), vec![addr(i)], true);
                if r2 == r {
                    good = true;
                }
            }
            10 => v = vote(t, h - 1, r, &hash(b), i),
            _ => v = vote(t, h + 1, r, &hash(b), i),
        }
        deliver(OverlordMsg::SignedVote(v));
        if good {
            cast.push(Cast { t, b, voter: i });
        }
        judge(&d, h, r, &cast, &own_votes(r), "C10: a certificate is missing");
    }
    summary();
    reach("end");
}
pub fn flaws() {
    flawed(12)
}

/// Votes that arrive before the round begins.
pub fn early() {
    let mut d = D::new(&[3], 0);
    for i in 0..4 {
        d.l[i].vote_weight = 1 + choose(2, "weight") as u32;
    }
    w().commit_list = d.l.clone();
    d.boot(PREVOTE, None);
    let (h, r0, r) = (d.h, d.r, d.r + 1);
    let mut cast: Vec<Cast> = Vec::new();
    for i in 1..4 {
        if flip("votes") {
            let b = [2u8, 0][choose(2, "block") as usize];
            deliver(OverlordMsg::SignedVote(vote(1, h, r, &hash(b), i)));
            cast.push(Cast { t: 1, b, voter: i });
        }
    }
    check(own_qcs().is_empty(), "C10: no certificate before the round begins");
    d.choke_agg(r0, 1);
    let own = vec![Cast { t: 1, b: 2, voter: 0 }];
    judge(&d, h, r, &cast, &own, "C10: votes that came early are counted with the own vote");
    summary();
    reach("end");
}
