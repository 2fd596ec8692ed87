//! C17: messages for a height or round that has not begun.
use crate::diff::*;
use crate::drive::*;
use crate::hist::apply;
use crate::hist::E;
use crate::hist::E::*;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;

/// Something for a height to come: all of it holds under both lists.
#[derive(Clone, Copy)]
enum F {
    /// round, block
    Prop(u64, u8),
    /// type, round, block
    Votes(u8, u64, u8),
    Qc(u8, u64, u8),
}
fn mask(l: &[Node], who: &[usize]) -> u8 {
    let mut a: Vec<usize> = l.iter().map(|n| (n.address[0] - 0xa0) as usize).collect();
    a.sort();
    let mut m = 0u8;
    for (i, x) in a.iter().enumerate() {
        if who.contains(x) {
            m |= 0x80 >> i;
        }
    }
    m
}
struct Ahead {
    h: u64,
    hm: u64,
    /// the list of that height
    l: Vec<Node>,
    /// others that are in both lists
    who: Vec<usize>,
}
impl Ahead {
    fn new(h: u64, hm: u64, l: &[Node]) -> Ahead {
        let who = l.iter().map(|n| (n.address[0] - 0xa0) as usize).filter(|i| *i != 0 && *i < 4).collect();
        Ahead { h, hm, l: l.to_vec(), who }
    }
    fn leader(&self, r: u64, l: &[Node]) -> usize {
        leader_index(600 + self.hm, 600 + r, l)
    }
    fn send(&self, f: F) {
        self.pass(f);
        settle();
    }
    /// without waiting for what it does
    fn pass(&self, f: F) {
        match f {
            F::Prop(r, b) => {
                let p = self.leader(r, &self.l);
                // the same validator has to lead under both lists
                if p != 0 && p == self.leader(r, &list(4)) {
                    reach("proposal ahead");
                    send(OverlordMsg::SignedProposal(proposal(self.h, r, &hash(b), b, None, p)));
                }
            }
            F::Votes(t, r, b) => {
                for i in self.who.iter() {
                    send(OverlordMsg::SignedVote(vote(t, self.h, r, &hash(b), *i)));
                }
            }
            F::Qc(t, r, b) => send(OverlordMsg::AggregatedVote(self.qc(t, r, b))),
        }
    }
    fn qc(&self, t: u8, r: u64, b: u8) -> AggregatedVote {
        let who: Vec<usize> = self.l.iter().map(|n| (n.address[0] - 0xa0) as usize).filter(|i| *i != 0).collect();
        qc(&self.l, t, self.h, r, &hash(b), mask(&self.l, &who))
    }
}
const FS: &[&[F]] = &[
    &[F::Prop(0, 1)],
    &[F::Prop(1, 1)],
    &[F::Votes(1, 0, 2)],
    &[F::Votes(1, 0, 0)],
    &[F::Votes(2, 0, 0)],
    &[F::Votes(1, 1, 2)],
    &[F::Votes(1, 1, 0)],
    &[F::Qc(1, 0, 0)],
    &[F::Qc(2, 0, 0)],
    &[F::Qc(1, 1, 0)],
    &[F::Qc(1, 0, 1)],
];
/// These may be looked at in any order.
const PAIRS: &[&[F]] = &[
    &[F::Prop(0, 1), F::Prop(1, 1)],
    &[F::Prop(1, 1), F::Prop(0, 1)],
    &[F::Prop(0, 1), F::Qc(1, 0, 1)],
    &[F::Qc(1, 0, 1), F::Prop(0, 1)],
    &[F::Prop(0, 1), F::Votes(1, 1, 2)],
    &[F::Votes(1, 1, 0), F::Prop(1, 1)],
    &[F::Prop(2, 2), F::Prop(3, 2)],
    &[F::Qc(1, 0, 0), F::Qc(2, 0, 0)],
];

/// Before their height and afterwards: it makes no difference.
fn kept(turns: &[u64], opens: &[u64], ks: &[u64], lists: &[u64], fs: &[&[F]], menu: &'static [S], suffix: usize, order: bool) {
    let mut d = D::new(turns, 0);
    let h = d.h;
    let k = ks[choose(ks.len() as u64, "up") as usize];
    let l2 = some_list(lists[choose(lists.len() as u64, "list") as usize]);
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    let x = Ahead::new(h + k, d.hm() + k, &l2);
    let at = At::new(h + k, d.hm() + k, 0, 0, &l2);
    let mut told_fs: Vec<F> = Vec::new();
    for f in fs[choose(fs.len() as u64, "ahead") as usize] {
        x.send(*f);
        told_fs.push(*f);
    }
    if k > 1 && flip("in between") {
        // another height comes first
        deliver(status(h + 1, &list(4)));
    }
    let m = w().log.len();
    w().commit_list = l2.clone();
    deliver(status(h + k, &l2));
    tape_record();
    for _ in 0..suffix {
        at.play(menu[choose(menu.len() as u64, "event") as usize]);
    }
    tape_off();
    let mut a = view(m);
    // told after the height has begun
    reset(0);
    w().own_block = 2;
    start(h, 3000, list(4), None);
    settle();
    let m = w().log.len();
    w().commit_list = l2.clone();
    deliver(status(h + k, &l2));
    // what was kept is looked at in this order
    for f in told_fs.iter() {
        if let F::Prop(..) = f {
            x.pass(*f);
        }
    }
    for f in told_fs.iter() {
        if let F::Votes(..) = f {
            x.pass(*f);
        }
    }
    for f in told_fs.iter() {
        if let F::Qc(..) = f {
            x.pass(*f);
        }
    }
    settle();
    tape_play();
    for _ in 0..suffix {
        at.play(menu[choose(menu.len() as u64, "event") as usize]);
    }
    tape_off();
    let mut b = view(m);
    // who leads does more than one thing at once
    if order || x.leader(0, &l2) == 0 {
        a = unordered(loose(a));
        b = unordered(loose(b));
    }
    same(&a, &b, "C17: what came early takes effect when its height begins");
    reach("end");
}
/// By kind; what is stored or signed keeps its order.
fn unordered(v: Vec<Act>) -> Vec<Act> {
    let mut o: Vec<Act> = Vec::new();
    for k in 1..10u8 {
        for a in v.iter() {
            if a.0 == k {
                o.push(*a);
            }
        }
    }
    o
}
pub fn c17_kept() {
    kept(&[1], &[0, 3], &[1], &[0, 1, 3], FS, MENU, 1, false)
}
/// This node leads the height to come.
pub fn c17_lead() {
    kept(&[3], &[0, 7], &[3], &[0], FS, MENU, 1, true)
}
pub fn c17_pairs() {
    kept(&[3], &[0], &[1, 3, 4], &[0, 1], PAIRS, MENU, 1, true)
}

fn timers() -> Vec<u64> {
    round_timers().iter().map(|i| tokio::verif::sleep_info(*i).0.as_millis() as u64).collect()
}
fn same_timers(a: &[u64], b: &[u64]) {
    let mut ok = a.len() == b.len();
    for (x, y) in a.iter().zip(b.iter()) {
        ok &= x == y;
    }
    check(ok, "C17: what is ahead starts no timer");
}
/// Anything for a higher height, right or wrong.
fn anything(d: &D, what: u64) {
    let (h, l) = (d.h, d.l.clone());
    let k = 1 + below(7, "ahead");
    match what {
        0 => {
            let p = choose(4, "by") as usize;
            let ok = flip("signed");
            let mut x = proposal(h + k, below(16, "round"), &hash(1), 1, None, p);
            if !ok {
                w().sigs.last_mut().unwrap().ok = false;
                x.signature = token(w().sigs.len() - 1);
            }
            deliver(OverlordMsg::SignedProposal(x));
        }
        1 => {
            let (t, b) = (1 + choose(2, "type") as u8, choose(2, "block") as u8);
            let r = below(16, "round");
            for i in 1..4 {
                deliver(OverlordMsg::SignedVote(vote(t, h + k, r, &hash(b), i)));
            }
        }
        2 => {
            let (t, b) = (1 + choose(2, "type") as u8, choose(2, "block") as u8);
            let r = below(16, "round");
            deliver(OverlordMsg::AggregatedVote(qc(&l, t, h + k, r, &hash(b), MOST)));
        }
        3 => {
            let r = below(16, "round");
            for i in 1..4 {
                deliver(OverlordMsg::SignedChoke(choke(h + k, r, init_from(), i)));
            }
        }
        // a choke that brings the aggregated choke of a higher height
        _ => {
            let r = below(16, "round");
            let voters: Vec<Address> = (1..4).map(addr).collect();
            let sig = sign_as(choke_bytes(h + k, r), voters.clone(), true);
            let agg = AggregatedChoke { height: h + k, round: r, signature: sig, voters };
            deliver(OverlordMsg::SignedChoke(choke(h + k, r + 1, UpdateFrom::ChokeQC(agg), 1)));
        }
    }
}
fn before_run(turns: &[u64], opens: &[u64], n: u64, with: bool, place: u64, menu: &[E]) -> (Vec<Act>, Vec<u64>) {
    let mut d = D::new(turns, 0);
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    for i in 0..n {
        if with && place == i {
            tape_off();
            anything(&d, choose(5, "what"));
            tape_resume(false);
        }
        apply(&mut d, menu[choose(menu.len() as u64, "event") as usize]);
    }
    tape_off();
    (view(0), timers())
}
/// Nothing shows before the height begins.
fn before(turns: &[u64], opens: &[u64], n: u64, places: &[u64], menu: &[E]) {
    let place = places[choose(places.len() as u64, "place") as usize];
    tape_record();
    let (a, ta) = before_run(turns, opens, n, true, place, menu);
    tape_play();
    let (b, tb) = before_run(turns, opens, n, false, 9, menu);
    same(&a, &b, "C17: what is ahead has no effect before its height");
    same_timers(&ta, &tb);
    reach("end");
}
const NOW: &[E] = &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(1, 1, 0), ChokesAt(0), Timer, Check(true), Votes(1, 1, 2)];
pub fn c17_before() {
    before(&[3], &[2, 8], 1, &[0], &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), ChokesAt(0), Timer, Votes(1, 1, 2)])
}
pub fn c17_befored() {
    before(&[1, 3], &[0, 1, 2, 3, 4, 6, 8], 2, &[0, 1], NOW)
}

/// Something ahead that does not hold under the list of its height.
fn bad(x: &Ahead, what: u64) {
    let h = x.h;
    match what {
        // the leader of this list but not of that one
        0 => {
            let p = x.leader(0, &list(4));
            if p != 0 && p != x.leader(0, &x.l) {
                reach("other leader");
                deliver(OverlordMsg::SignedProposal(proposal(h, 0, &hash(1), 1, None, p)));
            }
        }
        // not signed by the leader
        1 => {
            let p = x.leader(0, &x.l);
            let mut m = proposal(h, 0, &hash(1), 1, None, p);
            let own = m.signature.clone();
            let other = proposal(h, 0, &hash(1), 1, None, 7).signature;
            m.signature = match choose(3, "signature") {
                0 => other,
                1 => proposal(h, 0, &hash(2), 1, None, p).signature,
                _ => own.slice(0..1),
            };
            deliver(OverlordMsg::SignedProposal(m));
        }
        // a proof of lock without enough signers in that list
        2 => {
            let p = x.leader(1, &x.l);
            let who = if x.l.len() > 3 { vec![2, 3] } else { vec![2] };
            let q = qc(&x.l, 1, h, 0, &hash(1), mask(&x.l, &who));
            let polc = PoLC { lock_round: 0, lock_votes: q };
            deliver(OverlordMsg::SignedProposal(proposal(h, 1, &hash(1), 1, Some(polc), p)));
        }
        // votes with a signature for something else
        3 => {
            let t = 1 + choose(2, "type") as u8;
            let how = choose(3, "signature");
            for i in 1..4 {
                let mut v = vote(t, h, 0, &hash(2), i);
                let s = match how {
                    0 => vote(t, h - 1, 0, &hash(2), i),
                    1 => vote(3 - t, h, 0, &hash(2), i),
                    _ => vote(t, h, 0, &hash(2), 6),
                };
                v.signature = s.signature;
                deliver(OverlordMsg::SignedVote(v));
            }
        }
        // votes of validators of this height only, and of strangers
        4 => {
            let t = 1 + choose(2, "type") as u8;
            for i in 1..8 {
                if !x.l.iter().any(|n| n.address == addr(i)) {
                    deliver(OverlordMsg::SignedVote(vote(t, h, 0, &hash(2), i)));
                }
            }
        }
        // certificates
        _ => {
            let t = 1 + choose(2, "type") as u8;
            let r = choose(2, "round");
            let q = x.qc(t, r, 0);
            let q = match what {
                // signed for another height
                5 => {
                    let who = marked(&x.l, &q.signature.address_bitmap);
                    let mut q = q;
                    q.signature.signature = sign_as(vote_bytes(t, h - 1, r, &hash(0)), who, true);
                    q
                }
                // too few
                6 => {
                    let who = if x.l.len() > 3 { vec![2, 3] } else { vec![2] };
                    qc(&x.l, t, h, r, &hash(0), mask(&x.l, &who))
                }
                // right under the list of this height
                7 => qc(&list(4), t, h, r, &hash(0), MOST),
                // no valid signature
                _ => {
                    let mut q = q;
                    q.signature.signature = token(200);
                    q
                }
            };
            deliver(OverlordMsg::AggregatedVote(q));
        }
    }
}
fn unqualified(turns: &[u64], ks: &[u64], lists: &[u64], bads: &[u64], menu: &'static [S], n: usize) {
    let mut d = D::new(turns, 0);
    let h = d.h;
    let k = ks[choose(ks.len() as u64, "up") as usize];
    let ln = lists[choose(lists.len() as u64, "list") as usize];
    let l2 = some_list(ln);
    d.open(0);
    let x = Ahead::new(h + k, d.hm() + k, &l2);
    let at = At::new(h + k, d.hm() + k, 0, 0, &l2);
    let what = bads[choose(bads.len() as u64, "bad") as usize];
    // with list 0 both lists are the same
    if ln == 0 && (what == 0 || what == 7) {
        reach("none");
        return;
    }
    // something good for another slot
    let goods: &[&[F]] = match what {
        0 | 1 => &[&[], &[F::Votes(1, 0, 2)], &[F::Prop(1, 1)], &[F::Qc(2, 0, 0)]],
        2 => &[&[], &[F::Prop(0, 1)], &[F::Qc(1, 0, 0)]],
        3 | 4 => &[&[], &[F::Prop(0, 1)], &[F::Qc(1, 0, 0)], &[F::Qc(1, 1, 0)]],
        _ => &[&[], &[F::Prop(0, 1)], &[F::Votes(1, 0, 2)], &[F::Votes(2, 0, 0)]],
    };
    let good = goods[choose(goods.len() as u64, "good") as usize];
    let first = flip("bad first");
    if first {
        bad(&x, what);
    }
    for f in good {
        x.send(*f);
    }
    if !first {
        bad(&x, what);
    }
    let m = w().log.len();
    w().commit_list = l2.clone();
    deliver(status(h + k, &l2));
    tape_record();
    for _ in 0..n {
        at.play(menu[choose(menu.len() as u64, "event") as usize]);
    }
    tape_off();
    let a = view(m);
    reset(0);
    w().own_block = 2;
    start(h, 3000, list(4), None);
    settle();
    for f in good {
        x.send(*f);
    }
    let m = w().log.len();
    w().commit_list = l2.clone();
    deliver(status(h + k, &l2));
    tape_play();
    for _ in 0..n {
        at.play(menu[choose(menu.len() as u64, "event") as usize]);
    }
    tape_off();
    let b = view(m);
    same(&a, &b, "C17: what does not hold at its height has no effect");
    reach("end");
}
pub fn c17_bad() {
    unqualified(&[1], &[1, 2], &[0, 1], &[0, 1, 2, 3, 4, 5, 6, 7, 8], &[S::Prop(1), S::Qc(1, 0), S::Votes(1, 2), S::Chokes, S::Timer], 1)
}
pub fn c17_badd() {
    unqualified(&[1], &[1, 2, 3, 4], &[0, 1, 2, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8], MENU, 2)
}

/// What is within the gap is kept, what is not is dropped.
fn gap(lists: &[u64]) {
    let mut d = D::new(&[1], 0);
    let h = d.h;
    let l2 = some_list(lists[choose(lists.len() as u64, "list") as usize]);
    d.open(0);
    let kind = choose(3, "kind");
    let k = 1 + choose(8, "up");
    let r = choose(14, "round");
    let x = Ahead::new(h + k, d.hm() + k, &l2);
    let p = x.leader(r, &l2);
    // votes are for a leader, proposals are for others
    let skip = match kind {
        0 => p == 0 || p != x.leader(r, &list(4)),
        1 => p != 0,
        // the limit of certificates is one less
        _ => k == 5 || r == 10,
    };
    if skip {
        reach("skip");
        return;
    }
    let f = match kind {
        0 => F::Prop(r, 1),
        1 => F::Votes(1, r, 2),
        _ => F::Qc(2, r, 0),
    };
    let keep = k <= 5 && r <= 10;
    if keep {
        reach("kept");
    } else {
        reach("dropped");
    }
    let mut go = |early: bool, late: bool| -> Vec<Act> {
        d.boot_again();
        if early {
            x.send(f);
        }
        let m = w().log.len();
        w().commit_list = l2.clone();
        deliver(status(h + k, &l2));
        if late {
            x.send(f);
        }
        if r > 0 && kind != 2 {
            x.send(F::Qc(2, r - 1, 0));
        }
        unordered(loose(view(m)))
    };
    let a = go(true, false);
    let b = go(false, keep);
    if keep {
        same(&a, &b, "C17: what is within the gap is kept");
    } else {
        same(&a, &b, "C17: what is beyond the gap is dropped");
    }
    reach("end");
}
pub fn c17_gap() {
    gap(&[0, 1])
}
/// The same with distances beyond any bound.
pub fn c17_far() {
    let mut d = D::new(&[1], 0);
    let h = d.h;
    d.open(0);
    let kind = choose(3, "kind");
    let far_r = flip("round");
    let (k, r) = if far_r { (1 + choose(4, "up"), 11 + below(1 << 40, "far")) } else { (6 + below(1 << 40, "far"), choose(4, "round")) };
    let l = list(4);
    let mut go = |early: bool| -> Vec<Act> {
        d.boot_again();
        if early {
            match kind {
                0 => {
                    for p in 1..4 {
                        deliver(OverlordMsg::SignedProposal(proposal(h + k, r, &hash(1), 1, None, p)));
                    }
                }
                1 => {
                    for i in 1..4 {
                        deliver(OverlordMsg::SignedVote(vote(1, h + k, r, &hash(2), i)));
                    }
                }
                _ => deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h + k, r, &hash(0), MOST))),
            }
        }
        let m = w().log.len();
        deliver(status(h + k, &l));
        if far_r {
            deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h + k, r - 1, &hash(0), MOST)));
        } else if concrete(r) > 0 {
            deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h + k, r - 1, &hash(0), MOST)));
        }
        view(m)
    };
    let a = go(true);
    let b = go(false);
    same(&a, &b, "C17: what is beyond the gap is dropped");
    reach("end");
}

/// Rounds of the same height.
pub fn c17_rounds() {
    let turn = choose(4, "leads");
    let mut d = D::new(&[turn], 0);
    d.boot(PROPOSE, None);
    let j = 1 + choose(13, "ahead");
    let kind = choose(2, "kind");
    let p = d.leader(j);
    if (kind == 0) == (p == 0) {
        reach("skip");
        return;
    }
    let (h, r) = (d.h, d.r);
    let keep = j <= 10;
    // how the round is entered
    let via = choose(if j == 1 { 4 } else { 3 }, "via");
    let pass = |h: u64, r: u64| {
        if kind == 0 {
            deliver(OverlordMsg::SignedProposal(proposal(h, r + j, &hash(1), 1, None, p)));
        } else {
            for i in 1..4 {
                deliver(OverlordMsg::SignedVote(vote(1, h, r + j, &hash(2), i)));
            }
        }
    };
    let m0 = w().log.len();
    pass(h, r);
    check(view(m0).is_empty(), "C17: what is ahead has no effect before its round");
    let enter = |d: &mut D| match via {
        0 => deliver(OverlordMsg::AggregatedVote(qc(&d.l, 2, h, r + j - 1, &hash(0), MOST))),
        1 => d.choke_agg(r + j - 1, 1),
        2 => d.choke_qc(2, r + j - 1, 0, 1),
        // the timers of the round run out
        _ => {
            for _ in 0..3 {
                if let Some(i) = round_timers().last() {
                    fire(*i);
                }
            }
            for i in 1..4 {
                d.choke(r, i);
            }
        }
    };
    let m = w().log.len();
    enter(&mut d);
    let a = loose(view(m));
    // in its round, or never
    d.boot_again();
    let m = w().log.len();
    enter(&mut d);
    if keep {
        pass(h, r);
        reach("kept");
    } else {
        reach("dropped");
    }
    let b = loose(view(m));
    if keep {
        same(&a, &b, "C17: what is within the gap of rounds takes effect");
    } else {
        same(&a, &b, "C17: what is beyond the gap of rounds is dropped");
    }
    reach("end");
}
/// Certificates by what they certify, each once.
fn loose(v: Vec<Act>) -> Vec<Act> {
    let mut o: Vec<Act> = Vec::new();
    for a in v.iter() {
        let mut a = *a;
        if a.0 == 3 {
            a.4 = 0;
            if o.iter().any(|x| x.0 == 3 && x.3 == a.3 && concrete((x.1 ^ a.1) | (x.2 ^ a.2)) == 0) {
                continue;
            }
        }
        o.push(a);
    }
    o
}
