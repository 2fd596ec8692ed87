//! C16: nothing from outside crashes or wedges a node.
use crate::diff::*;
use crate::drive::*;
use crate::hist::apply;
use crate::hist::E;
use crate::hist::E::*;
use crate::sym::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::DurationConfig;

/// What is strange: 0 numbers, 1 contents, 2 everything.
static mut FOCUS: u64 = 2;
fn focus() -> u64 {
    unsafe { FOCUS }
}
/// The current value, a small one, one of the greatest, one in between.
fn wild(cur: u64, t: &'static str) -> u64 {
    if focus() == 1 {
        return cur;
    }
    match choose(4, t) {
        0 => cur,
        1 => below(4, "small"),
        2 => u64::MAX - below(16, "top"),
        _ => (1 << 32) + below(1 << 31, "middle"),
    }
}
fn who(usual: usize, t: &'static str) -> Address {
    if focus() == 0 {
        return addr(usual);
    }
    match choose(5, t) {
        0 => addr(0),
        1 => addr(usual),
        2 => addr(6),
        3 => Bytes::new(),
        _ => Bytes::from(vec![0xa1; 40]),
    }
}
fn a_hash(t: &'static str) -> Hash {
    match choose(if focus() == 0 { 2 } else { 3 }, t) {
        0 => hash(1),
        1 => Bytes::new(),
        _ => Bytes::from(vec![0xb1; 40]),
    }
}
fn signed(t: &'static str) -> bool {
    focus() == 0 || flip(t)
}
fn bitmap(t: &'static str) -> Bytes {
    if focus() == 0 {
        return Bytes::from(vec![MOST]);
    }
    match choose(6, t) {
        0 => Bytes::from(vec![MOST]),
        1 => Bytes::new(),
        2 => Bytes::from(vec![0xff]),
        3 => Bytes::from(vec![0x7f, 0xff]),
        4 => Bytes::from(vec![0x70; 40]),
        _ => Bytes::from(vec![u8_("bitmap")]),
    }
}
/// A certificate with anything in it; `good` ones carry a fitting signature.
fn a_qc(d: &D, h: u64, r: u64) -> AggregatedVote {
    let t = 1 + choose(2, "type") as u8;
    let b = a_hash("hash");
    let m = bitmap("voters");
    let mut q = raw_qc(t, h, r, &b, 0, Bytes::new());
    q.signature.signature = if signed("signed") {
        sign_as(vote_bytes(t, h, r, &b), marked(&d.l, &m), true)
    } else {
        Bytes::from(vec![7; 3])
    };
    q.signature.address_bitmap = m;
    q.leader = if signed("leader") { addr(6) } else { Bytes::new() };
    q
}
fn an_agg(h: u64, r: u64) -> AggregatedChoke {
    let voters: Vec<Address> = match if focus() == 0 { 1 } else { choose(5, "voters") } {
        0 => vec![],
        1 => (1..4).map(addr).collect(),
        2 => vec![addr(1); 5],
        3 => (4..8).map(addr).collect(),
        _ => vec![Bytes::new(), addr(1), addr(2), addr(3)],
    };
    let signature = if signed("signed") { sign_as(choke_bytes(h, r), voters.clone(), true) } else { Bytes::new() };
    AggregatedChoke { height: h, round: r, signature, voters }
}
/// One strange message that is no status and no stop.
fn strange(d: &D, kind: u64) {
    let (ch, cr) = (d.h, d.r);
    match kind {
        0 => {
            let (h, r) = (wild(ch, "height"), wild(cr, "round"));
            let lock = if flip("lock") {
                let lr = wild(cr, "lock round");
                Some(PoLC { lock_round: lr, lock_votes: qc(&d.l, 1, h, lr, &hash(1), ALL) })
            } else {
                None
            };
            let p = who(d.leader(0), "proposer");
            let x = Proposal { height: h, round: r, content: Blk(1), block_hash: a_hash("hash"), lock, proposer: p.clone() };
            let signature = if signed("signed") {
                sign_as(Bytes::from(rlp::encode(&x).to_vec()), vec![p], true)
            } else {
                Bytes::new()
            };
            deliver(OverlordMsg::SignedProposal(SignedProposal { signature, proposal: x }));
        }
        1 => {
            let (h, r) = (wild(ch, "height"), wild(cr, "round"));
            let t = 1 + choose(2, "type") as u8;
            let b = a_hash("hash");
            let v = who(1, "voter");
            let signature = if signed("signed") { sign_as(vote_bytes(t, h, r, &b), vec![v.clone()], true) } else { Bytes::new() };
            deliver(OverlordMsg::SignedVote(SignedVote {
                signature,
                vote: Vote { height: h, round: r, vote_type: vt(t), block_hash: b },
                voter: v,
            }));
        }
        2 => {
            let (h, r) = (wild(ch, "height"), wild(cr, "round"));
            deliver(OverlordMsg::AggregatedVote(a_qc(d, h, r)));
        }
        3 => {
            // proofs of lock of all kinds in the proposal of the leader
            let p = d.leader(0);
            let lr = wild(cr - 1, "lock round");
            let lock = Some(PoLC { lock_round: wild(cr - 1, "lock round 2"), lock_votes: a_qc(d, ch, lr) });
            let x = Proposal { height: ch, round: cr, content: Blk(1), block_hash: hash(1), lock, proposer: addr(p) };
            let s = sign_as(Bytes::from(rlp::encode(&x).to_vec()), vec![addr(p)], true);
            deliver(OverlordMsg::SignedProposal(SignedProposal { signature: s, proposal: x }));
        }
        4 => {
            let (h, r) = (wild(ch, "height"), wild(cr, "round"));
            let from = match choose(3, "from") {
                0 => UpdateFrom::PrevoteQC(a_qc(d, h, r)),
                1 => UpdateFrom::PrecommitQC(a_qc(d, h, r - 1)),
                _ => UpdateFrom::ChokeQC(an_agg(h, r - 1)),
            };
            deliver(OverlordMsg::SignedChoke(choke(h, r, from, 1 + choose(2, "sender") as usize * 5)));
        }
        5 => {
            // a round of chokes
            let r = wild(cr, "round");
            for i in 1..4 {
                deliver(OverlordMsg::SignedChoke(choke(ch, r, init_from(), i)));
            }
        }
        6 => {
            // sent by whoever, not signed
            let mut c = choke(ch, cr, init_from(), 1);
            c.address = who(1, "sender");
            c.signature = if flip("empty") { Bytes::new() } else { token(250) };
            deliver(OverlordMsg::SignedChoke(c));
        }
        _ => {
            // an aggregated choke inside a choke of this height
            let r = wild(cr, "round");
            let agg = an_agg(wild(ch, "height"), wild(cr, "round"));
            deliver(OverlordMsg::SignedChoke(choke(ch, r, UpdateFrom::ChokeQC(agg), 1)));
        }
    }
}
fn entered(from: usize, h: u64, r: u64) -> bool {
    let mut x = false;
    for e in w().log[from..].iter() {
        if let Ev::Wal(b) = e {
            let rec = parse_record(b);
            x |= (rec.h == h) & (rec.r == r);
        }
    }
    x
}
/// Whatever happened, the node is still there.
fn serves(h: u64, l: &[Node]) {
    // a leader to be waits after its commit
    end_commit_pause();
    let m = w().log.len();
    w().commit_list = l.to_vec();
    deliver(status(h, l));
    check(entered(m, h, 0), "C16: the node still goes to a new height");
    in_round(h, l);
}
/// The node is in round 0 of `h`.
fn in_round(h: u64, l: &[Node]) {
    let m = w().log.len();
    let n = l.len();
    let all = 0xffu8 << (8 - n);
    // everybody's signature
    deliver(OverlordMsg::AggregatedVote(qc(l, 2, h, 0, &hash(0), all)));
    check(entered(m, h, 1), "C16: the node still reacts to certificates");
    let m = w().log.len();
    let t = round_timers();
    check(!t.is_empty(), "C16: the node still has a timer");
    fire(*t.last().unwrap());
    check(w().log.len() > m, "C16: the node still reacts to its timer");
    check(!w().ended, "C16: only a stop request ends the node");
}
fn any(turns: &[u64], opens: &[u64], kinds: &[u64], before: &[E], focuses: &[u64], n: usize) {
    unsafe { FOCUS = focuses[choose(focuses.len() as u64, "focus") as usize] };
    let mut d = D::new(turns, 0);
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    for _ in 0..n {
        let k = kinds[choose(kinds.len() as u64, "kind") as usize];
        strange(&d, k);
    }
    if !before.is_empty() {
        let e = before[choose(before.len() as u64, "event") as usize];
        apply(&mut d, e);
    }
    serves(d.h + 2, &list(4));
    reach("end");
}
pub fn c16_messages() {
    any(&[1], &[7], &[0, 1, 2], &[], &[0, 1], 1)
}
pub fn c16_chokes() {
    any(&[1], &[0], &[3, 4, 5, 6, 7], &[], &[0, 1], 1)
}
pub fn c16_alld() {
    any(&[1], &[0], &[0, 1, 2, 3, 4, 5, 6, 7], &[], &[2], 1)
}
pub fn c16_twod() {
    any(&[3], &[8], &[0, 1, 2, 3, 4, 5, 6, 7], &[], &[0, 1], 2)
}
pub fn c16_messagesd() {
    any(&[1, 3], &[0, 2, 3, 5, 7, 8, 9], &[0, 1, 2, 3, 4, 5, 6, 7], &[Timer, Check(true), QcAt(1, 0, 1), QcAt(2, 0, 0), ChokesAt(0)], &[0, 1], 1)
}
/// Histories of ordinary events do no harm either.
pub fn c16_ordinary() {
    ordinary(&[1], &[2, 4, 6, 8], &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(2, 0, 1), ChokesAt(0), Timer, Check(true), Votes(1, 1, 2)])
}
fn ordinary(turns: &[u64], opens: &[u64], menu: &[E]) {
    let mut d = D::new(turns, 0);
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    w().wal_fail = 1;
    w().commit_fail = 1;
    for _ in 0..2 {
        crate::hist::pick(&mut d, menu);
    }
    end_commit_pause();
    w().wal_fail = 0;
    serves(d.h + 3, &list(4));
    reach("end");
}
pub fn c16_ordinaryd() {
    ordinary(&[1, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[Prop(0, 1), Prop(1, 2), Locked(1, 2), Qc(1, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), QcAt(2, 0, 1), Agg, ChokesAt(0), Timer, Check(true), Check(false), Votes(1, 1, 2)])
}

fn a_list(k: u64) -> Vec<Node> {
    let mut l = list(4);
    match k {
        0 => {}
        1 => {
            for n in l.iter_mut() {
                n.vote_weight = u32::MAX;
                n.propose_weight = u32::MAX;
            }
        }
        2 => l.truncate(1),
        3 => {
            // nobody weighs anything but this node
            for n in l.iter_mut().skip(1) {
                n.vote_weight = 0;
                n.propose_weight = 0;
            }
        }
        4 => l.clear(),
        5 => {
            for n in l.iter_mut() {
                n.vote_weight = 0;
                n.propose_weight = 0;
            }
        }
        6 => {
            l.remove(0);
        }
        _ => {
            // somebody twice
            l.push(Node::new(addr(1)));
            l.push(Node::new(Bytes::new()));
        }
    }
    l
}
/// Statuses with anything in them.
fn a_status(turns: &[u64], opens: &[u64], lists: &[u64], menu: &[E]) {
    let mut d = D::new(turns, 0);
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    let up = choose(4, "how high");
    let h = match up {
        0 => d.h + 1,
        1 => u64::MAX - below(16, "top"),
        2 => (1 << 32) + below(1 << 31, "middle"),
        _ => below(4, "small"),
    };
    let k = lists[choose(lists.len() as u64, "list") as usize];
    let l = a_list(k);
    let ratio = [0u64, 10, u64::MAX, 1 << 63];
    let x = ratio[choose(4, "ratio") as usize];
    let interval = match choose(4, "interval") {
        0 => None,
        1 => Some(0),
        2 => Some(u64::MAX - below(4, "interval")),
        _ => Some(below(1 << 20, "interval")),
    };
    let config = if flip("config") { Some(DurationConfig::new(x, x, 10, x)) } else { None };
    let m = w().log.len();
    w().commit_list = l.clone();
    deliver(OverlordMsg::RichStatus(overlord::types::Status { height: h, interval, timer_config: config, authority_list: l.clone() }));
    let higher = up != 3;
    let takes_part = k <= 3;
    let e = menu[choose(menu.len() as u64, "event") as usize];
    if higher && takes_part {
        check(entered(m, h, 0), "C16: the node goes to a new height");
        match e {
            Timer => {
                let t = round_timers();
                fire(*t.last().unwrap());
            }
            Prop(..) => {
                // the leader's proposal is answered
                let p = leader_index(h, 0, &l);
                if p != 0 {
                    let m = w().log.len();
                    deliver(OverlordMsg::SignedProposal(proposal(h, 0, &hash(1), 1, None, p)));
                    let mut v = false;
                    for e in w().log[m..].iter() {
                        if let Ev::Xmit(_, OverlordMsg::SignedVote(x)) = e {
                            v |= (x.vote.height == h) & (x.vote.round == 0);
                        }
                    }
                    check(v, "C16: the node still votes");
                }
            }
            _ => {}
        }
        // a node that decides alone goes on by itself
        if k < 2 {
            in_round(h, &l);
        }
        if up != 1 {
            serves(h + 1, &list(4));
        }
    } else {
        apply(&mut d, e);
        // a status at the top leaves no higher one
        if up != 1 {
            let next = if higher { h + 1 } else { d.h + 2 };
            serves(next, &list(4));
        }
    }
    reach("end");
}
pub fn c16_status() {
    a_status(&[1], &[3], &[0, 1, 2, 3, 4, 5, 6, 7], &[Timer, Prop(0, 1)])
}
pub fn c16_statusd() {
    a_status(&[1, 3], &[0, 2, 3, 7, 8, 9], &[0, 1, 2, 3, 4, 5, 6, 7], &[Timer, Prop(0, 1), QcAt(2, 0, 0), ChokesAt(0), Check(true)])
}

/// A stop request ends the node, and then it is silent.
fn stopped(turns: &[u64], opens: &[u64], menu: &[E]) {
    let mut d = D::new(turns, 0);
    let k = opens[choose(opens.len() as u64, "open") as usize];
    if k == 10 {
        // no validator
        start(d.h, 3000, some_list(4), None);
        settle();
    } else {
        d.open(k);
    }
    let early = flip("at once");
    if early {
        // both are there when it looks
        send(OverlordMsg::Stop);
        let (h, r) = (d.h, d.r);
        deliver(OverlordMsg::AggregatedVote(qc(&d.l, 2, h, r, &hash(0), MOST)));
    } else {
        deliver(OverlordMsg::Stop);
    }
    let m = w().log.len();
    for _ in 0..2 {
        match menu[choose(menu.len() as u64, "event") as usize] {
            Timer => {
                let t = pending_sleeps();
                if !t.is_empty() {
                    fire(t[choose(t.len() as u64, "timer") as usize]);
                }
            }
            e => apply(&mut d, e),
        }
    }
    deliver(status(d.h + 2, &list(4)));
    check(view(m).is_empty(), "C16: a stopped node sends nothing more");
    check(w().ended, "C16: a stop request ends the node");
    reach("end");
}
pub fn c16_stop() {
    stopped(&[1, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[Prop(0, 1), QcAt(2, 0, 0), ChokesAt(0), Timer, Check(true), Votes(1, 1, 2)])
}
