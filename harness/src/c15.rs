//! C15: chokes from anyone, one by one and aggregated.
use crate::diff::round_timers;
use crate::drive::*;
use crate::sym::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;

/// The latest round the log shows.
fn round() -> (u64, u64) {
    let mut x = (0, 0);
    for e in w().log.iter() {
        if let Ev::Wal(b) = e {
            let r = parse_record(b);
            x = (r.h, r.r);
        }
    }
    x
}
/// `n` validators, the node (number 0) in round `r` of `h`, choking or not.
fn ready(n: usize, h: u64, r: u64, braking: bool) -> Vec<Node> {
    reset(0);
    let mut l = list(n);
    // chokes are counted by heads
    match choose(3, "weights") {
        0 => {}
        1 => l[n - 1].vote_weight = 100,
        _ => l[1].vote_weight = 0,
    }
    if flip("order") {
        l.reverse();
    }
    w().commit_list = l.clone();
    w().own_block = 2;
    w().wal = Some(wal_record(h, r, if braking { PRECOMMIT } else { PREVOTE }, None, &init_from()));
    w().log.push(Ev::Wal(w().wal.clone().unwrap()));
    start(h, 3000, l.clone(), None);
    settle();
    if braking {
        // the precommit step ends without a certificate
        fire(*round_timers().last().unwrap());
        let mut c = false;
        for e in w().log.iter() {
            c |= matches!(e, Ev::Bcast(OverlordMsg::SignedChoke(_)));
        }
        check(c, "C15: without a certificate the node chokes");
    }
    l
}
/// The leader of a later round is of no interest here: this node never leads.
fn quiet(n: usize, h: u64, r: u64) -> u64 {
    let l = list(n);
    let mut r = r;
    while leader_index(h, r, &l) == 0 || leader_index(h, r + 1, &l) == 0 {
        r += 1;
    }
    r
}
fn collected(ns: &[usize], most: usize, kinds: u64) {
    let n = ns[choose(ns.len() as u64, "n") as usize];
    let h = 5;
    let r = quiet(n, h, 3) + n as u64 * below(8, "turn");
    let braking = flip("braking");
    let _ = ready(n, h, r, braking);
    let mut counted = vec![false; n];
    counted[0] = braking;
    let mut next = 1;
    let mut moved = false;
    for _ in 0..most {
        let from = if next < n { next } else { 1 };
        let mut c = choke(h, r, init_from(), from);
        match choose(kinds, "choke") {
            0 => {
                counted[from] = true;
                next = (next + 1).min(n);
            }
            1 => {
                // again by the one before
                let i = if next > n { n - 1 } else if next > 1 { next - 1 } else { 1 };
                counted[i] = true;
                if next == 1 {
                    next = 2;
                }
                c = choke(h, r, init_from(), i);
            }
            2 => c = choke(h, r, init_from(), 7),
            3 => c.signature = sign_as(choke_bytes(h, r), vec![addr(6)], true),
            4 => c.address = addr((from % (n - 1)) + 1),
            5 => {
                let o = below(64, "signed round");
                assume(o != r);
                c.signature = sign_as(choke_bytes(h, o), vec![addr(from)], true);
            }
            6 => {
                let o = below(64, "other round");
                assume(o != r);
                c = choke(h, o, init_from(), from);
            }
            7 => c = choke(h + choose(2, "up") * 2 - 1, r, init_from(), from),
            8 => c.signature = sign_as(choke_bytes(h + 1, r), vec![addr(from)], true),
            _ => c.signature = token(230),
        }
        deliver(OverlordMsg::SignedChoke(c));
        let k = counted.iter().filter(|x| **x).count();
        moved |= k * 3 > n * 2;
        let (h2, r2) = round();
        if moved {
            check((h2 == h) & (r2 == r + 1), "C15: enough chokes move the node to the next round");
            reach("moved");
            break;
        } else {
            check((h2 == h) & (r2 == r), "C15: a node leaves a round only for chokes of more than two thirds");
        }
    }
    reach("end");
}
pub fn c15_chokes() {
    collected(&[3, 4], 3, 10)
}
pub fn c15_long() {
    collected(&[4], 4, 6)
}
pub fn c15_more() {
    collected(&[5, 7], 5, 4)
}
pub fn c15_chokesd() {
    collected(&[4, 5], 4, 10)
}

/// Aggregated chokes.
fn aggregated(ns: &[usize]) {
    let n = ns[choose(ns.len() as u64, "n") as usize];
    let h = 5;
    let r = quiet(n, h, 3) + n as u64 * below(8, "turn");
    let _ = ready(n, h, r, flip("braking"));
    // of any round
    let ar = below(64, "choke round");
    let kind = choose(9, "voters");
    let need = n * 2 / 3 + 1;
    let members: Vec<Address> = (n - need..n).map(addr).collect();
    let (voters, good): (Vec<Address>, bool) = match kind {
        0 => (members.clone(), true),
        1 => ((0..n).map(addr).collect(), true),
        2 => {
            let mut v = members.clone();
            v.reverse();
            (v, true)
        }
        3 => (members[1..].to_vec(), false),
        4 => {
            let mut v = members[1..].to_vec();
            v.push(members[1].clone());
            (v, false)
        }
        5 => {
            let mut v = members[1..].to_vec();
            v.push(addr(7));
            (v, false)
        }
        6 => (vec![], false),
        7 => (vec![members[0].clone(); 2 * n], false),
        _ => {
            let mut v = members.clone();
            v.push(members[0].clone());
            (v, false)
        }
    };
    let (signature, signed) = match choose(6, "signature") {
        0 => (sign_as(choke_bytes(h, ar), voters.clone(), true), true),
        1 => (sign_as(choke_bytes(h, ar), voters.clone(), false), false),
        2 => (token(240), false),
        3 => {
            let o = below(64, "signed round");
            assume(o != ar);
            (sign_as(choke_bytes(h, o), voters.clone(), true), false)
        }
        4 => (sign_as(choke_bytes(h + 1, ar), voters.clone(), true), false),
        _ => {
            let mut v = voters.clone();
            if v.is_empty() {
                v.push(addr(1));
            } else {
                v[0] = addr(7);
            }
            (sign_as(choke_bytes(h, ar), v, true), false)
        }
    };
    let ah = if flip("other height") { h + 1 } else { h };
    let agg = AggregatedChoke { height: ah, round: ar, signature, voters };
    // carried by a choke of any later round, by a member or not
    let cr = below(128, "carrier round");
    let who = [1, 7][choose(2, "carrier") as usize];
    let mut c = choke(h, cr, UpdateFrom::ChokeQC(agg), who);
    let forged = flip("forged carrier");
    if forged {
        c.signature = token(241);
    }
    deliver(OverlordMsg::SignedChoke(c));
    let (h2, r2) = round();
    if good && signed && ah == h {
        check((h2 == h) & ((r2 == r) | ((r2 == ar + 1) & (ar >= r))), "C15: an aggregated choke leads to the round after its own");
        if who == 1 && !forged {
            check((r2 == ar + 1) | (ar < r) | (cr <= r), "C15: an aggregated choke moves the node");
            reach("moved");
        }
    } else {
        check((h2 == h) & (r2 == r), "C15: a wrong aggregated choke does not move the node");
    }
    reach("end");
}
pub fn c15_aggregated() {
    aggregated(&[3, 4])
}
pub fn c15_aggregatedd() {
    aggregated(&[3, 4, 5, 6, 7])
}
/// A genuine aggregated choke first, then a wrong one, perhaps with its signature.
pub fn c15_replayed() {
    let n = 4;
    let h = 5;
    let r = quiet(n, h, 3) + n as u64 * below(8, "turn");
    let _ = ready(n, h, r, flip("braking"));
    let voters: Vec<Address> = (1..n).map(addr).collect();
    let genuine = AggregatedChoke { height: h, round: r, signature: sign_as(choke_bytes(h, r), voters.clone(), true), voters: voters.clone() };
    deliver(OverlordMsg::SignedChoke(choke(h, r + 1, UpdateFrom::ChokeQC(genuine.clone()), 1)));
    check(round() == (h, r + 1), "C15: an aggregated choke moves the node");
    let mut agg = genuine;
    agg.round = below(64, "choke round");
    match choose(5, "voters") {
        0 => {}
        1 => {
            agg.voters.pop();
        }
        2 => agg.voters.reverse(),
        3 => agg.voters = (0..n).map(addr).collect(),
        _ => agg.voters = vec![],
    }
    if !flip("same signature") {
        agg.signature = token(240);
    }
    deliver(OverlordMsg::SignedChoke(choke(h, below(128, "carrier round"), UpdateFrom::ChokeQC(agg), 2)));
    check(round() == (h, r + 1), "C15: a wrong aggregated choke does not move the node");
    reach("end");
}
