//! Comparison of two runs: what a node did before, or what it was told in
//! between, makes no difference for what it does afterwards.
use crate::drive::*;
use crate::hist::{apply, E};
use crate::hist::E::*;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;
use overlord::DurationConfig;
use tokio::verif as rt;

/// One visible action: kind, height, round and details.
#[derive(Clone, Copy)]
pub struct Act(pub u8, pub u64, pub u64, pub u64, pub u64);

fn num(a: &Address) -> u64 {
    if a.len() == 1 {
        a[0] as u64
    } else {
        0x1000 + a.len() as u64
    }
}
fn blk(h: &Hash) -> u64 {
    if h.is_empty() {
        0
    } else {
        h[0] as u64
    }
}
fn of_from(f: &UpdateFrom) -> u64 {
    match f {
        UpdateFrom::PrevoteQC(q) => 1 + q.round * 4,
        UpdateFrom::PrecommitQC(q) => 2 + q.round * 4,
        UpdateFrom::ChokeQC(q) => 3 + q.round * 4,
    }
}
pub fn view(from: usize) -> Vec<Act> {
    let mut v = Vec::new();
    for e in w().log[from..].iter() {
        match e {
            Ev::Wal(b) => {
                let x = parse_record(b);
                let (a, c) = match &x.lock {
                    None => (0, 0),
                    Some((lr, q, k)) => (1 + *lr, blk(&q.block_hash) * 256 + *k as u64),
                };
                v.push(Act(1, x.h, x.r, a * 8 + x.step as u64, c));
            }
            Ev::Bcast(m) => match m {
                OverlordMsg::SignedProposal(p) => {
                    let q = &p.proposal;
                    let l = match &q.lock {
                        None => 0,
                        Some(x) => 1 + x.lock_round,
                    };
                    v.push(Act(2, q.height, q.round, blk(&q.block_hash) * 256 + q.content.0 as u64, l));
                }
                OverlordMsg::AggregatedVote(q) => {
                    let t = if q.vote_type == VoteType::Prevote { 1 } else { 2 };
                    v.push(Act(3, q.height, q.round, t * 256 + blk(&q.block_hash), q.signature.address_bitmap[0] as u64));
                }
                OverlordMsg::SignedChoke(c) => v.push(Act(4, c.choke.height, c.choke.round, of_from(&c.choke.from), num(&c.address))),
                _ => v.push(Act(9, 0, 0, 0, 0)),
            },
            Ev::Xmit(to, m) => {
                if let OverlordMsg::SignedVote(x) = m {
                    let t = if x.vote.vote_type == VoteType::Prevote { 1 } else { 2 };
                    v.push(Act(5, x.vote.height, x.vote.round, t * 256 + blk(&x.vote.block_hash), num(to)));
                } else {
                    v.push(Act(9, 0, 0, 0, 1));
                }
            }
            Ev::CheckReq { h, hash, blk: b, .. } => v.push(Act(6, *h, 0, blk(hash), b.0 as u64)),
            Ev::GetBlock(h, _) => v.push(Act(7, *h, 0, 0, 0)),
            Ev::Commit(h, c) => v.push(Act(8, *h, c.proof.round, blk(&c.proof.block_hash), c.content.0 as u64)),
            _ => {}
        }
    }
    v
}
pub fn same(a: &[Act], b: &[Act], what: &'static str) {
    for (i, x) in a.iter().enumerate() {
        note("a.kind", x.0 as u64);
        note("a.h", x.1);
        note("a.r", x.2);
        if i < b.len() {
            note("b.kind", b[i].0 as u64);
        }
    }
    check(a.len() == b.len(), what);
    let mut ok = true;
    for (x, y) in a.iter().zip(b.iter()) {
        ok &= x.0 == y.0;
        ok &= (x.1 == y.1) & (x.2 == y.2) & (x.3 == y.3) & (x.4 == y.4);
    }
    check(ok, what);
}

/// Lists a later height may have; this node is in all of them but the last.
pub fn some_list(k: u64) -> Vec<Node> {
    let who: &[usize] = match k {
        0 => &[0, 1, 2, 3],
        1 => &[4, 0, 3, 2],
        2 => &[0, 2, 5],
        3 => &[3, 0, 1, 2, 6],
        5 | 6 | 7 => &[0, 1, 2, 3],
        _ => &[1, 2, 3, 4],
    };
    let mut l: Vec<Node> = who.iter().map(|i| Node::new(addr(*i))).collect();
    match k {
        // the same validators with other weights
        5 => l[0].vote_weight = 9,
        6 => l[2].vote_weight = 4,
        7 => l[3].propose_weight = 30,
        _ => {}
    }
    l
}
/// bitmap of all members of a list but this node (its address is the lowest)
fn most(l: &[Node]) -> u8 {
    let all = 0xffu8 << (8 - l.len());
    if l.iter().any(|n| n.address == addr(0)) {
        all & 0x7f
    } else {
        all
    }
}
fn others(l: &[Node]) -> Vec<usize> {
    l.iter().map(|n| (n.address[0] - 0xa0) as usize).filter(|i| *i != 0).collect()
}

/// What others do at a height with a list.
#[derive(Clone, Copy)]
pub enum S {
    Prop(u8),
    Qc(u8, u8),
    QcHigh(u8, u8),
    Votes(u8, u8),
    Chokes,
    Agg,
    Timer,
    Check,
}
pub const MENU: &[S] = &[S::Prop(1), S::Qc(1, 1), S::Qc(1, 0), S::Qc(2, 0), S::Qc(2, 1), S::QcHigh(1, 0), S::Votes(1, 2), S::Chokes, S::Agg, S::Timer, S::Check];

pub struct At {
    pub h: u64,
    pub r: u64,
    pub l: Vec<Node>,
    pub leader: usize,
}
impl At {
    /// `hm`: height modulo 60
    pub fn new(h: u64, hm: u64, r: u64, rm: u64, l: &[Node]) -> At {
        At { h, r, l: l.to_vec(), leader: leader_index(600 + hm, 600 + rm, l) }
    }
    pub fn play(&self, e: S) {
        let (h, r) = (self.h, self.r);
        match e {
            S::Prop(b) => {
                if self.leader != 0 {
                    deliver(OverlordMsg::SignedProposal(proposal(h, r, &hash(b), b, None, self.leader)));
                }
            }
            S::Qc(t, b) => deliver(OverlordMsg::AggregatedVote(qc(&self.l, t, h, r, &hash(b), most(&self.l)))),
            S::QcHigh(t, b) => {
                let r = r + 1 + below(64, "higher round");
                deliver(OverlordMsg::AggregatedVote(qc(&self.l, t, h, r, &hash(b), most(&self.l))))
            }
            S::Votes(t, b) => {
                for i in others(&self.l) {
                    deliver(OverlordMsg::SignedVote(vote(t, h, r, &hash(b), i)));
                }
            }
            S::Chokes => {
                for i in others(&self.l) {
                    deliver(OverlordMsg::SignedChoke(choke(h, r, init_from(), i)));
                }
            }
            S::Agg => {
                let who = others(&self.l);
                let voters: Vec<Address> = who.iter().map(|i| addr(*i)).collect();
                let sig = sign_as(choke_bytes(h, r), voters.clone(), true);
                let agg = AggregatedChoke { height: h, round: r, signature: sig, voters };
                deliver(OverlordMsg::SignedChoke(choke(h, r + 1, UpdateFrom::ChokeQC(agg), who[0])));
            }
            S::Timer => {
                let t = round_timers();
                if let Some(i) = t.last() {
                    fire(*i);
                }
            }
            S::Check => {
                let mut last = None;
                for i in open_checks() {
                    // checks of this height only
                    if same_height(w().checks[i].h, h) {
                        last = Some(i);
                    }
                }
                if let Some(i) = last {
                    finish_check(i, true);
                    settle();
                }
            }
        }
    }
}
/// heights are symbolic but their difference is not
fn same_height(a: u64, b: u64) -> bool {
    concrete(a.wrapping_sub(b)) == 0
}
pub fn round_timers() -> Vec<usize> {
    pending_sleeps().into_iter().filter(|i| rt::sleep_info(*i).3 != w().main_task).collect()
}

/// Something for an earlier height `d.h`, told to a node that left it.
fn noise(d: &mut D, k: u64) {
    match k {
        0 => {}
        1 => {
            let off = choose(2, "off");
            d.proposal(off, 2, None);
        }
        2 => {
            let r = below(160, "old round");
            let t = 1 + choose(2, "old type") as u8;
            d.qc(t, r, choose(2, "old block") as u8);
        }
        3 => {
            for i in 1..4 {
                d.vote(1 + choose(2, "old type") as u8, 0, 1, i);
            }
        }
        4 => {
            let r = below(160, "old round");
            if flip("aggregated") {
                d.choke_agg(r, 1);
            } else {
                for i in 1..4 {
                    d.choke(r, i);
                }
            }
        }
        5 => {
            for i in open_checks() {
                if same_height(w().checks[i].h, d.h) {
                    finish_check(i, true);
                    settle();
                }
            }
        }
        6 => {
            let t = round_timers();
            if t.len() > 1 {
                let i = choose(t.len() as u64 - 1, "old timer") as usize;
                fire(t[i]);
            }
        }
        _ => {
            let k = below(3, "how old");
            let h = d.h - 1 + below(2, "old height") - k;
            deliver(OverlordMsg::RichStatus(overlord::types::Status {
                height: h,
                interval: Some(77),
                timer_config: Some(DurationConfig::new(1, 2, 3, 4)),
                authority_list: some_list(2),
            }));
        }
    }
}

/// What happened at the height before.
const PAST: &[E] = &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 2), QcAt(1, 0, 0), QcAt(2, 0, 0), Agg, Timer, Check(true), QcAt(1, 1, 1), Votes(1, 1, 2), ChokesAt(0)];
pub struct Cfg {
    pub turns: &'static [u64],
    pub opens: &'static [u64],
    pub past: &'static [E],
    pub ks: &'static [u64],
    pub lists: &'static [u64],
    pub noises: &'static [u64],
    pub menu: &'static [S],
    pub suffix: usize,
    /// the log may fail at the new height
    pub fails: bool,
}
fn past(d: &mut D, c: &Cfg) {
    let k = c.opens[choose(c.opens.len() as u64, "open") as usize];
    d.open(k);
    if !c.past.is_empty() {
        let i = choose(c.past.len() as u64, "event") as usize;
        apply(d, c.past[i]);
    }
    d.revive();
}
fn told(d: &mut D, h: u64, l: &[Node]) {
    w().commit_list = l.to_vec();
    d.cur = h;
    deliver(status(h, l));
}
/// Records of the start of a height are left out where a failure may hide one.
fn without_first(v: Vec<Act>) -> Vec<Act> {
    v.into_iter().filter(|a| !(a.0 == 1 && a.3 == 0 && a.4 == 0)).collect()
}

/// C19: a node with a past and a node without one at a new height.
fn fresh_start(c: &Cfg) {
    let mut d = D::new(c.turns, 0);
    past(&mut d, c);
    let h = d.h;
    let k = c.ks[choose(c.ks.len() as u64, "heights") as usize];
    let h2 = h + k;
    let l2 = some_list(c.lists[choose(c.lists.len() as u64, "list") as usize]);
    let fails = c.fails && flip("log fails");
    w().wal_fail_now = fails;
    let m = w().log.len();
    told(&mut d, h2, &l2);
    // exactly that height at round zero, with no lock
    let mut first = None;
    for e in w().log[m..].iter() {
        if let Ev::Wal(b) = e {
            if first.is_none() {
                first = Some(parse_record(b));
            }
        }
    }
    match first {
        None => check(false, "C19: the new height is entered"),
        Some(x) => {
            check((x.h == h2) & (x.r == 0), "C19: the new height starts at round zero");
            check(x.step == PROPOSE && x.lock.is_none(), "C19: the new height starts without a lock");
        }
    }
    let at = At::new(h2, d.hm() + k % 60, 0, 0, &l2);
    let what = c.noises[choose(c.noises.len() as u64, "old") as usize];
    let when = if what == 0 { 0 } else { choose(2, "when") };
    if when == 0 {
        noise(&mut d, what);
    }
    tape_record();
    for i in 0..c.suffix {
        let e = c.menu[choose(c.menu.len() as u64, "event") as usize];
        at.play(e);
        if i == 0 && when == 1 {
            tape_off();
            noise(&mut d, what);
            tape_resume(false);
        }
    }
    end_commit_pause();
    tape_off();
    let a = view(m);
    // the same without a past
    let b = without_past(h, &l2, h2, &at, c);
    if fails {
        same(&without_first(a), &without_first(b), "C19: the past makes no difference");
    } else {
        same(&a, &b, "C19: the past makes no difference");
    }
    reach("end");
}
/// A node that starts at height `h` and is told `h2` plays the taped events.
fn without_past(h: u64, l2: &[Node], h2: u64, at: &At, c: &Cfg) -> Vec<Act> {
    reset(0);
    w().own_block = 2;
    // with that list all along
    start(h, 3000, l2.to_vec(), None);
    settle();
    let m = w().log.len();
    w().commit_list = l2.to_vec();
    deliver(status(h2, l2));
    tape_play();
    for _ in 0..c.suffix {
        let e = c.menu[choose(c.menu.len() as u64, "event") as usize];
        at.play(e);
    }
    end_commit_pause();
    tape_off();
    view(m)
}
pub fn c19_clean() {
    fresh_start(&Cfg {
        turns: &[1, 3],
        opens: &[2, 7, 9],
        past: &[Votes(1, 1, 2), ChokesAt(0)],
        ks: &[1],
        lists: &[1],
        noises: &[0, 2, 5, 6],
        menu: MENU,
        suffix: 1,
        fails: false,
    })
}
/// The validators stay, their weights do not.
pub fn c19_weights() {
    fresh_start(&Cfg {
        turns: &[1, 3],
        opens: &[1, 7],
        past: &[],
        ks: &[1, 2],
        lists: &[5, 6, 7],
        noises: &[0],
        menu: MENU,
        suffix: 1,
        fails: false,
    })
}
/// What the node did at a height.
fn only(v: Vec<Act>, h: u64) -> Vec<Act> {
    v.into_iter().filter(|a| same_height(a.1, h)).collect()
}
/// The status comes while the node is at work on something else.
fn met(turns: &[u64], opens: &[u64], menu: &[E], lists: &[u64], most: u64, suffix: &'static [S]) {
    let mut d = D::new(turns, 0);
    d.open(opens[choose(opens.len() as u64, "open") as usize]);
    let h = d.h;
    let h2 = h + 1;
    let l2 = some_list(lists[choose(lists.len() as u64, "list") as usize]);
    w().commit_list = l2.clone();
    w().select = 3 * choose(2, "first input") as usize;
    crate::race::post(&mut d, menu[choose(menu.len() as u64, "event") as usize]);
    crate::race::work(most);
    d.cur = h2;
    send(status(h2, &l2));
    settle();
    d.revive();
    w().select = 0;
    end_commit_pause();
    let mut first = None;
    for e in w().log.iter() {
        if let Ev::Wal(b) = e {
            let x = parse_record(b);
            if first.is_none() && same_height(x.h, h2) {
                first = Some(x);
            }
        }
    }
    match first {
        None => check(false, "C19: the new height is entered"),
        Some(x) => {
            check(x.r == 0, "C19: the new height starts at round zero");
            check(x.step == PROPOSE && x.lock.is_none(), "C19: the new height starts without a lock");
        }
    }
    let at = At::new(h2, d.hm() + 1, 0, 0, &l2);
    let c = Cfg { turns: &[], opens: &[], past: &[], ks: &[], lists: &[], noises: &[], menu: suffix, suffix: 1, fails: false };
    tape_record();
    at.play(suffix[choose(suffix.len() as u64, "event") as usize]);
    end_commit_pause();
    tape_off();
    let a = only(view(0), h2);
    let b = only(without_past(h, &l2, h2, &at, &c), h2);
    same(&a, &b, "C19: what the node was at work on makes no difference");
    reach("end");
}
const BUSY: &[E] = &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(1, 0, 0), QcAt(2, 0, 0), QcAt(2, 0, 1), QcAt(1, 1, 0), ChokesAt(0), Timer, Check(true)];
pub fn c19_race() {
    met(&[1, 3], &[0, 1, 2, 3, 6], BUSY, &[0, 1], crate::race::STEPS, &[S::Prop(1), S::Qc(1, 1), S::Chokes, S::Timer])
}
/// A little of everything: old messages in between two new ones.
pub fn c19_mixed() {
    fresh_start(&Cfg {
        turns: &[1],
        opens: &[1, 3],
        past: &[],
        ks: &[1],
        lists: &[0],
        noises: &[1, 2, 3, 4, 5, 6],
        menu: &[S::Prop(1), S::Qc(1, 1), S::Qc(2, 1), S::Chokes],
        suffix: 2,
        fails: false,
    })
}
pub fn c19_plain() {
    fresh_start(&Cfg {
        turns: &[3],
        opens: &[3, 7],
        past: &[QcAt(2, 0, 0)],
        ks: &[1, 3],
        lists: &[1],
        noises: &[0],
        menu: &[S::Prop(1), S::Qc(1, 1), S::Qc(1, 0), S::Qc(2, 0), S::QcHigh(1, 0), S::Votes(1, 2), S::Chokes, S::Timer, S::Check],
        suffix: 2,
        fails: false,
    })
}
pub fn c19_fails() {
    fresh_start(&Cfg {
        turns: &[3],
        opens: &[4, 7],
        past: &[Timer],
        ks: &[1],
        lists: &[0, 3],
        noises: &[0],
        menu: MENU,
        suffix: 1,
        fails: true,
    })
}
pub fn c19_old() {
    fresh_start(&Cfg {
        turns: &[1],
        opens: &[1, 3, 6],
        past: &[],
        ks: &[1],
        lists: &[0, 2],
        noises: &[1, 3, 4, 6, 7],
        menu: MENU,
        suffix: 1,
        fails: false,
    })
}
pub fn c19_deep() {
    fresh_start(&Cfg { turns: &[1, 3], opens: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], past: PAST, ks: &[1, 2], lists: &[0, 1, 2, 3], noises: &[0, 1, 2, 3, 4, 5, 6, 7], menu: MENU, suffix: 1, fails: true })
}
pub fn c19_deep2() {
    fresh_start(&Cfg { turns: &[1, 3], opens: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], past: PAST, ks: &[1, 3], lists: &[0, 1, 2], noises: &[0], menu: MENU, suffix: 2, fails: false })
}

fn timers() -> Vec<u64> {
    round_timers().iter().map(|i| rt::sleep_info(*i).0.as_millis() as u64).collect()
}
fn lower_run(turns: &[u64], with: bool, place: u64, menu: &'static [E]) -> (Vec<Act>, Vec<u64>) {
    let mut d = D::new(turns, 0);
    let opens = [0u64, 2, 3, 4, 6, 8];
    let k = opens[choose(opens.len() as u64, "open") as usize];
    d.open(k);
    for i in 0..3 {
        if with && place == i {
            tape_off();
            let k = below(3, "how old");
            let x = below(2, "own height");
            let low = overlord::types::Status {
                height: d.h - k * x,
                interval: Some(77),
                timer_config: Some(DurationConfig::new(1, 2, 3, 4)),
                authority_list: some_list(choose(5, "list")),
            };
            deliver(OverlordMsg::RichStatus(low));
            tape_resume(false);
        }
        if i < 2 {
            let e = menu[choose(menu.len() as u64, "event") as usize];
            apply(&mut d, e);
        }
    }
    tape_off();
    (view(0), timers())
}
/// C19: a status that is not higher changes nothing.
fn lower(turns: &[u64], places: &[u64], menu: &'static [E]) {
    let place = places[choose(places.len() as u64, "place") as usize];
    tape_record();
    let (a, ta) = lower_run(turns, true, place, menu);
    tape_play();
    let (b, tb) = lower_run(turns, false, 9, menu);
    same(&a, &b, "C19: a status that is not higher changes nothing");
    let mut ok = ta.len() == tb.len();
    for (x, y) in ta.iter().zip(tb.iter()) {
        ok &= x == y;
    }
    check(ok, "C19: a status that is not higher changes no timer");
    reach("end");
}
pub fn c19_lower() {
    lower(&[1], &[0, 1], &[Prop(0, 1), Prop(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(1, 1, 0), ChokesAt(0), Timer, Check(true), Votes(1, 1, 2)])
}
pub fn c19_lowerd() {
    lower(&[1, 3], &[0, 1, 2], &[Prop(0, 1), Prop(0, 2), Prop(1, 2), QcAt(1, 0, 1), QcAt(2, 0, 0), QcAt(1, 1, 0), QcAt(2, 0, 1), Qc(1, 1), ChokesAt(0), Agg, Timer, Check(true), Votes(1, 1, 2), Votes(2, 1, 2), Crash])
}
fn lower_commit_run(with: bool) -> (Vec<Act>, Vec<u64>) {
    let mut d = D::new(&[1, 3], 0);
    let opens = [2u64, 3, 8];
    let k = opens[choose(3, "open") as usize];
    d.open(k);
    w().commit_height = Some(d.h - below(3, "how old"));
    if with {
        w().commit_interval = Some(77);
        w().commit_config = Some(DurationConfig::new(1, 2, 3, 4));
        tape_off();
        w().commit_list = some_list(choose(5, "list"));
        tape_resume(false);
    }
    if k == 8 {
        apply(&mut d, Votes(2, 1, 2));
    } else {
        apply(&mut d, QcAt(2, 0, 1));
    }
    let m: &[E] = &[Timer, QcAt(1, 0, 1), QcAt(1, 1, 0), ChokesAt(0), ChokesAt(1), Agg, Votes(1, 1, 2), QcAt(2, 0, 1)];
    pick(&mut d, m);
    apply(&mut d, Status(1));
    tape_off();
    (view(0), timers())
}
use crate::hist::pick;
pub fn c19_commit() {
    tape_record();
    let (a, ta) = lower_commit_run(true);
    tape_play();
    let (b, tb) = lower_commit_run(false);
    same(&a, &b, "C19: a commit that returns no higher status changes nothing");
    let mut ok = ta.len() == tb.len();
    for (x, y) in ta.iter().zip(tb.iter()) {
        ok &= x == y;
    }
    check(ok, "C19: a commit that returns no higher status changes no timer");
    reach("end");
}
