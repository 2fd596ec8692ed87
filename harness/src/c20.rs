//! C20: bitmap and voters.
use crate::sym::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;

/// Weights: alike, one without a vote, one that outweighs the others.
fn weigh(l: &mut [Node]) {
    let n = l.len();
    match choose(4, "weights") {
        0 => {}
        1 => l[0].vote_weight = 0,
        2 => {
            if n > 0 {
                l[n / 2].vote_weight = 0
            }
        }
        _ => {
            if n > 0 {
                l[n - 1].vote_weight = 200
            }
        }
    }
}
fn weight(l: &[Node], who: &[Address]) -> u64 {
    let mut x = 0;
    for a in who {
        for n in l {
            if n.address == *a {
                x += n.vote_weight as u64;
            }
        }
    }
    x
}
/// More than two thirds of the weight.
fn enough(l: &[Node], who: &[Address]) -> bool {
    let all: Vec<Address> = l.iter().map(|x| x.address.clone()).collect();
    weight(l, who) * 3 > weight(l, &all) * 2
}
fn perm(n: usize) -> Vec<Node> {
    let mut l: Vec<Node> = list(n);
    if n > 0 {
        weigh(&mut l);
    }
    match choose(4, "order") {
        0 => {}
        1 => l.reverse(),
        2 => l.rotate_left(n / 2),
        _ => {
            if n > 1 {
                l.swap(0, n / 2)
            }
        }
    }
    l
}
/// The public helper against the definition, symbolic bitmap of 0 to 2 bytes.
pub fn helper() {
    let n = choose(9, "n") as usize;
    let mut l = perm(n);
    let k = choose(3, "bytes") as usize;
    let mut bm = Vec::new();
    for _ in 0..k {
        bm.push(u8_("bitmap"));
    }
    let got = overlord::extract_voters(&mut l, &Bytes::from(bm.clone())).unwrap();
    let mut j = 0;
    let mut ok = true;
    for i in 0..n {
        let set = i / 8 < k && (bm[i / 8] >> (7 - i % 8)) & 1 == 1;
        if set {
            ok &= j < got.len() && got[j] == addr(i);
            j += 1;
        }
    }
    check(ok && j == got.len(), "C20: the helper returns exactly the marked validators");
    reach("end");
}
/// Address lists of several bytes: sorted by their bytes.
pub fn helper_sorts() {
    let n = 3usize;
    let l: Vec<Node> = (0..n)
        .map(|_| {
            let k = 1 + choose(2, "len");
            let mut v = vec![u8_("addr")];
            if k == 2 {
                v.push(u8_("addr"));
            }
            Node::new(Bytes::from(v))
        })
        .collect();
    let a: Vec<Bytes> = l.iter().map(|x| x.address.clone()).collect();
    assume(a[0] != a[1]);
    assume(a[1] != a[2]);
    assume(a[0] != a[2]);
    let pos = choose(3, "pos");
    let got = overlord::extract_voters(&mut l.clone(), &Bytes::from(vec![0x80u8 >> pos])).unwrap();
    check(got.len() == 1, "C20: one bit marks one validator");
    let mut smaller = 0u64;
    for x in a.iter() {
        if x.as_ref() < got[0].as_ref() {
            smaller += 1;
        }
    }
    check(smaller == pos, "C20: positions follow the order of the addresses");
    reach("end");
}
/// What the node verifies for a received certificate is what the helper says.
pub fn received() {
    let n = [1usize, 3, 4, 5, 7, 8][choose(6, "n") as usize];
    let l = perm(n);
    let (h, r) = (5, 3);
    reset(0);
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, l.clone(), None);
    settle();
    let extra = flip("second byte");
    let bm = u8_("bitmap");
    let mut v = vec![bm];
    if extra {
        v.push(u8_("bitmap2"));
    }
    let mut q = raw_qc(2, h, r, &hash(0), bm, token(9));
    q.signature.address_bitmap = Bytes::from(v.clone());
    let want = overlord::extract_voters(&mut l.clone(), &Bytes::from(v)).unwrap();
    deliver(OverlordMsg::AggregatedVote(q));
    if enough(&l, &want) {
        check(w().agg_seen.len() == 1, "C20: the certificate is verified once");
        check(w().agg_seen.len() == 1 && same_set(&w().agg_seen[0], &want), "C20: signatures are checked for the marked validators");
        reach("verified");
    } else {
        check(w().agg_seen.is_empty() || same_set(&w().agg_seen[0], &want), "C20: signatures are checked for the marked validators only");
    }
    reach("end");
}
/// The same for a proof of lock and for the justification of a choke.
pub fn carried() {
    let n = [3usize, 4, 8][choose(3, "n") as usize];
    let l = perm(n);
    let (h, r) = (5, 3);
    reset(0);
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, l.clone(), None);
    settle();
    let bm = u8_("bitmap");
    let want = overlord::extract_voters(&mut l.clone(), &Bytes::from(vec![bm])).unwrap();
    if flip("choke") {
        let q = raw_qc(2, h, r + 1, &hash(0), bm, token(9));
        deliver(OverlordMsg::SignedChoke(choke(h, r + 2, UpdateFrom::PrecommitQC(q), 1)));
    } else {
        let p = leader_index(h, r, &l);
        assume(p != 0);
        let q = raw_qc(1, h, r - 1, &hash(1), bm, token(9));
        deliver(OverlordMsg::SignedProposal(proposal(h, r, &hash(1), 1, Some(PoLC { lock_round: r - 1, lock_votes: q }), p)));
    }
    if enough(&l, &want) {
        check(w().agg_seen.len() == 1 && same_set(&w().agg_seen[0], &want), "C20: a carried certificate is checked for the marked validators");
        reach("verified");
    } else {
        check(w().agg_seen.is_empty() || same_set(&w().agg_seen[0], &want), "C20: signatures are checked for the marked validators only");
    }
    reach("end");
}
/// What the node encodes when it builds a certificate.
pub fn built() {
    let n = [3usize, 4, 5, 8][choose(4, "n") as usize];
    let l = perm(n);
    let h = 5;
    let me = choose(n as u64, "me") as usize;
    reset(me);
    let mut r = 1;
    while leader_index(h, r, &l) != me {
        r += 1;
    }
    // any later round this node leads
    r += n as u64 * below(64, "turn");
    w().wal = Some(wal_record(h, r - 1, PROPOSE, None, &init_from()));
    w().auto_check = true;
    start(h, 3000, l.clone(), None);
    settle();
    // go to the round this node leads; it proposes and votes itself
    let all = ((0xff00u16 >> n) & 0xff) as u8;
    deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h, r - 1, &hash(0), all)));
    let mut in_ = vec![addr(me)];
    if enough(&l, &in_) {
        // decides alone
        reach("end");
        return;
    }
    for i in 0..n {
        if i != me && flip("votes") {
            if !enough(&l, &in_) {
                in_.push(addr(i));
            }
            deliver(OverlordMsg::SignedVote(vote(1, h, r, &hash(1), i)));
        }
    }
    let mut found = false;
    for e in &w().log {
        if let Ev::Bcast(OverlordMsg::AggregatedVote(q)) = e {
            if q.vote_type == VoteType::Prevote {
                let got = overlord::extract_voters(&mut l.clone(), &q.signature.address_bitmap).unwrap();
                check(same_set(&got, &in_), "C20: the certificate marks the validators whose votes it aggregates");
                check(verifies(&q.signature.signature, &vote_bytes(1, h, r, &q.block_hash), &got), "C20: and its signature is theirs");
                found = true;
            }
        }
    }
    check(found == enough(&l, &in_), "C20: a certificate exists when enough votes came in");
    if found {
        reach("built");
    }
    reach("end");
}

// ------------------------------------------------ lists of more than 8 validators

/// A bitmap of several bytes: the first ones of three kinds, every bit of the last one.
fn long_bitmap(n: usize) -> Vec<u8> {
    let first = [0u8, 0xff, 0x5a][choose(3, "first bytes") as usize];
    let mut v = vec![first; (n - 1) / 8];
    v.push(u8_("bitmap"));
    v
}
fn long_list(n: usize) -> Vec<Node> {
    let mut l: Vec<Node> = list(n);
    match choose(3, "weights") {
        0 => {}
        1 => l[n - 1].vote_weight = 0,
        _ => l[n - 1].vote_weight = 200,
    }
    if flip("order") {
        l.reverse();
    }
    l
}
/// The helper, positions beyond the first byte.
pub fn helper_long() {
    let n = [9usize, 11, 16, 17, 33, 35, 65, 70][choose(8, "n") as usize];
    let mut l = long_list(n);
    let mut bm = long_bitmap(n);
    match choose(3, "bytes") {
        0 => {
            bm.pop();
        }
        1 => {}
        _ => bm.push(0x80),
    }
    let got = overlord::extract_voters(&mut l, &Bytes::from(bm.clone())).unwrap();
    let mut j = 0;
    let mut ok = true;
    for i in 0..n {
        let set = i / 8 < bm.len() && (bm[i / 8] >> (7 - i % 8)) & 1 == 1;
        if set {
            ok &= j < got.len() && got[j] == addr(i);
            j += 1;
        }
    }
    check(ok && j == got.len(), "C20: the helper returns exactly the marked validators");
    reach("end");
}
/// Certificates received (alone, within a proposal, within a choke), long lists.
pub fn received_long() {
    let n = [9usize, 11, 35, 66][choose(4, "n") as usize];
    let l = long_list(n);
    let (h, mut r) = (5, 3);
    while leader_index(h, r, &l) == 0 {
        r += 1;
    }
    reset(0);
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, l.clone(), None);
    settle();
    let bm = long_bitmap(n);
    let want = overlord::extract_voters(&mut l.clone(), &Bytes::from(bm.clone())).unwrap();
    match choose(3, "where") {
        0 => {
            let mut q = raw_qc(2, h, r, &hash(0), 0, token(9));
            q.signature.address_bitmap = Bytes::from(bm);
            deliver(OverlordMsg::AggregatedVote(q));
        }
        1 => {
            let mut q = raw_qc(2, h, r + 1, &hash(0), 0, token(9));
            q.signature.address_bitmap = Bytes::from(bm);
            deliver(OverlordMsg::SignedChoke(choke(h, r + 2, UpdateFrom::PrecommitQC(q), 1)));
        }
        _ => {
            let p = leader_index(h, r, &l);
            let mut q = raw_qc(1, h, r - 1, &hash(1), 0, token(9));
            q.signature.address_bitmap = Bytes::from(bm);
            let lock = Some(PoLC { lock_round: r - 1, lock_votes: q });
            deliver(OverlordMsg::SignedProposal(proposal(h, r, &hash(1), 1, lock, p)));
        }
    }
    if enough(&l, &want) {
        check(w().agg_seen.len() == 1 && same_set(&w().agg_seen[0], &want), "C20: signatures are checked for the marked validators");
        reach("verified");
    } else {
        check(w().agg_seen.is_empty() || same_set(&w().agg_seen[0], &want), "C20: signatures are checked for the marked validators only");
    }
    reach("end");
}
/// Certificates built over a long list: both votes, the bitmap has two bytes.
pub fn built_long() {
    let n = [9usize, 11, 35, 66][choose(4, "n") as usize];
    let l = long_list(n);
    let h = 5;
    let me = if flip("me") { n - 1 } else { 0 };
    reset(me);
    let mut r = 1;
    while leader_index(h, r, &l) != me {
        r += 1;
    }
    w().wal = Some(wal_record(h, r - 1, PROPOSE, None, &init_from()));
    w().auto_check = true;
    start(h, 3000, l.clone(), None);
    settle();
    let mut cause_bits = vec![0xffu8; n / 8];
    cause_bits.push(0xff00u16.checked_shr(n as u32 % 8).unwrap_or(0) as u8);
    let who = overlord::extract_voters(&mut l.clone(), &Bytes::from(cause_bits.clone())).unwrap();
    let mut cause = raw_qc(2, h, r - 1, &hash(0), 0, sign_as(vote_bytes(2, h, r - 1, &hash(0)), who, true));
    cause.signature.address_bitmap = Bytes::from(cause_bits);
    deliver(OverlordMsg::AggregatedVote(cause));
    let mut in_ = vec![addr(me)];
    if enough(&l, &in_) {
        reach("end");
        return;
    }
    for i in 0..n {
        // some always vote, then some of the last six
        if i != me && (i + 4 < n * 2 / 3 + 1 || i + 6 >= n && flip("votes")) {
            if !enough(&l, &in_) {
                in_.push(addr(i));
            }
            deliver(OverlordMsg::SignedVote(vote(1, h, r, &hash(1), i)));
        }
    }
    let mut found = false;
    for e in &w().log {
        if let Ev::Bcast(OverlordMsg::AggregatedVote(q)) = e {
            if q.vote_type == VoteType::Prevote {
                let mut got: Vec<Address> = Vec::new();
                for i in 0..n {
                    let b = &q.signature.address_bitmap;
                    if i / 8 < b.len() && (b[i / 8] >> (7 - i % 8)) & 1 == 1 {
                        got.push(addr(i));
                    }
                }
                check(same_set(&got, &in_), "C20: the certificate marks the validators whose votes it aggregates");
                check(verifies(&q.signature.signature, &vote_bytes(1, h, r, &q.block_hash), &got), "C20: and its signature is theirs");
                found = true;
            }
        }
    }
    check(found == enough(&l, &in_), "C20: a certificate exists when enough votes came in");
    if found {
        reach("built");
    }
    if found && n == 9 {
        // the precommits come in from any starting point of the list
        let from = choose(n as u64, "from") as usize;
        let mut in_ = vec![addr(me)];
        for k in 0..n {
            let i = (from + k) % n;
            if i != me {
                if !enough(&l, &in_) {
                    in_.push(addr(i));
                }
                deliver(OverlordMsg::SignedVote(vote(2, h, r, &hash(1), i)));
            }
        }
        let mut found = false;
        for e in &w().log {
            if let Ev::Bcast(OverlordMsg::AggregatedVote(q)) = e {
                if q.vote_type == VoteType::Precommit {
                    let mut got: Vec<Address> = Vec::new();
                    for i in 0..n {
                        let b = &q.signature.address_bitmap;
                        if i / 8 < b.len() && (b[i / 8] >> (7 - i % 8)) & 1 == 1 {
                            got.push(addr(i));
                        }
                    }
                    check(same_set(&got, &in_), "C20: the certificate marks the validators whose precommits it aggregates");
                    check(verifies(&q.signature.signature, &vote_bytes(2, h, r, &q.block_hash), &got), "C20: and its signature is theirs");
                    found = true;
                    reach("precommits");
                }
            }
        }
        check(found, "C20: a certificate exists when enough precommits came in");
    }
    reach("end");
}
