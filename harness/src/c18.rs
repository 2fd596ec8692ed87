//! C18: a node outside the validator list.
use crate::diff::*;
use crate::drive::*;
use crate::hist::apply;
use crate::hist::E::*;
use crate::sym::*;
use crate::world::*;
use overlord::types::OverlordMsg;

/// The node is not in these lists.
fn out_list(k: u64) -> Vec<overlord::types::Node> {
    match k {
        0 => some_list(4),
        _ => vec![1usize, 2, 3].into_iter().map(|i| overlord::types::Node::new(addr(i))).collect(),
    }
}
/// Gets a node outside in some way; returns the height it is at.
fn get_out(d: &mut D, ways: &[u64], l: &[overlord::types::Node]) -> (u64, u64) {
    let way = ways[choose(ways.len() as u64, "way") as usize];
    let h = d.h;
    match way {
        // started without being listed
        0 => {
            start(h, 3000, l.to_vec(), None);
            settle();
            (h, 0)
        }
        // left by a status
        1 | 2 | 3 | 4 | 5 => {
            let k = [0u64, 1, 3, 6, 8][way as usize - 1];
            d.open(k);
            w().commit_list = l.to_vec();
            w().log.push(Ev::InStatus { h: h + 1, member: false });
            deliver(status(h + 1, l));
            (h + 1, 1)
        }
        // left by its own commit
        6 | 7 => {
            d.open(way - 4);
            w().commit_list = l.to_vec();
            apply(d, QcAt(2, 0, 1));
            end_commit_pause();
            (h + 1, 1)
        }
        8 => {
            d.open(8);
            w().commit_list = l.to_vec();
            apply(d, Votes(1, 1, 2));
            apply(d, Check(true));
            apply(d, Votes(2, 1, 2));
            end_commit_pause();
            (h + 1, 1)
        }
        // restarted without being listed, with a log of the same height
        9 | 10 | 11 => {
            let k = [0u64, 3, 7][way as usize - 9];
            d.open(k);
            w().commit_list = l.to_vec();
            restart(h, l.to_vec());
            settle();
            (h, 0)
        }
        // or of the height before
        12 => {
            d.open(3);
            w().commit_list = l.to_vec();
            w().log.push(Ev::InStatus { h: h + 1, member: false });
            restart(h + 1, l.to_vec());
            settle();
            (h + 1, 1)
        }
        // left by a commit that is handed over once more after a restart
        _ => {
            d.open(3);
            w().crash = 1;
            w().commit_list = l.to_vec();
            d.send_qc(2, d.r, 1);
            settle();
            w().crash = 0;
            if w().crashed {
                restart(h, d.l.clone());
                settle();
                d.send_qc(2, d.r, 1);
                settle();
            }
            end_commit_pause();
            (h + 1, 1)
        }
    }
}
/// Without a commit the node is still where it was.
fn is_out(d: &D, h: u64) -> bool {
    let told = w().log.iter().any(|e| matches!(e, Ev::InStatus { .. }));
    concrete(h - d.h) == 0 || told || w().log.iter().any(|e| matches!(e, Ev::CommitOk(_)))
}
/// Something happens around a node outside.
fn around(d: &mut D, at: &At, e: u64) {
    let (h, r) = (at.h, at.r);
    let n = at.l.len();
    let all = 0xffu8 << (8 - n);
    match e {
        0 => at.play(S::Prop(1)),
        1 => {
            let t = 1 + choose(2, "type") as u8;
            let b = choose(2, "block") as u8;
            let r = r + below(64, "round");
            deliver(OverlordMsg::AggregatedVote(qc(&at.l, t, h, r, &hash(b), all)));
        }
        2 => at.play(S::Votes(1 + choose(2, "type") as u8, choose(2, "block") as u8)),
        3 => at.play(S::Chokes),
        4 => at.play(S::Agg),
        5 => {
            let p = pending_sleeps();
            if !p.is_empty() {
                fire(p[choose(p.len() as u64, "timer") as usize]);
            }
        }
        6 => {
            let o = open_checks();
            if !o.is_empty() {
                finish_check(o[choose(o.len() as u64, "check") as usize], flip("passed"));
                settle();
            }
        }
        // messages for the next height
        7 => {
            let k = 1 + below(3, "ahead");
            let l = some_list(0);
            match choose(3, "what") {
                0 => deliver(OverlordMsg::SignedProposal(proposal(h + k, 0, &hash(1), 1, None, choose(4, "by") as usize))),
                1 => deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h + k, 0, &hash(0), 0xf0))),
                _ => {
                    for i in 1..4 {
                        deliver(OverlordMsg::SignedVote(vote(1, h + k, 0, &hash(0), i)));
                    }
                }
            }
        }
        // a status that is not higher but lists the node
        8 => deliver(status(h - below(2, "old"), &list(4))),
        // messages for the height before, with the list before
        9 => {
            let r = d.r;
            match choose(4, "what") {
                0 => d.qc(1, r, 1),
                1 => d.qc(2, r, 0),
                2 => d.qc(2, r, 1),
                _ => {
                    for i in 1..4 {
                        d.choke(r, i);
                    }
                }
            }
        }
        // the node is outside at the next height too
        _ => {}
    }
}
fn silent(m: usize) {
    let v = view(m);
    for a in v.iter() {
        note("kind", a.0 as u64);
    }
    check(v.is_empty(), "C18: a node outside the list stays silent");
}
fn outside(turns: &[u64], lists: &[u64], ways: &[u64], evs: &[u64], n: usize) {
    let mut d = D::new(turns, 0);
    let l = out_list(lists[choose(lists.len() as u64, "list") as usize]);
    let hm = d.hm();
    let (h, k) = get_out(&mut d, ways, &l);
    let k = hm + k;
    if !is_out(&d, h) {
        reach("other");
        return;
    }
    let m = w().log.len();
    let at = At::new(h, k, 0, 0, &l);
    for _ in 0..n {
        let e = evs[choose(evs.len() as u64, "event") as usize];
        around(&mut d, &at, e);
    }
    silent(m);
    reach("end");
}
const WAYS: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
pub fn c18_silent() {
    outside(&[1], &[1], WAYS, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 2)
}
pub fn c18_leader() {
    outside(&[3], &[0, 1], &[8, 6], &[0, 1, 2, 3, 4, 5, 6, 9], 1)
}
pub fn c18_silentd() {
    outside(&[1, 3], &[0, 1], WAYS, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 3)
}
/// Listed again: takes part like any other node; and out again.
fn again(turns: &[u64], ways: &[u64], evs: &[u64], lists: &[u64], menu: &'static [S], n: usize, after: &[u64]) {
    let mut d = D::new(turns, 0);
    let l = out_list(0);
    let hm = d.hm();
    let (h, k) = get_out(&mut d, ways, &l);
    let k = hm + k;
    if !is_out(&d, h) {
        reach("other");
        return;
    }
    let at = At::new(h, k, 0, 0, &l);
    let e = evs[choose(evs.len() as u64, "event") as usize];
    let m = w().log.len();
    around(&mut d, &at, e);
    silent(m);
    let up = 1 + choose(2, "up");
    let l2 = some_list(lists[choose(lists.len() as u64, "list") as usize]);
    let h2 = h + up;
    let m = w().log.len();
    w().commit_list = l2.clone();
    deliver(status(h2, &l2));
    check(w().log.len() > m, "C18: a node that is listed again takes part");
    let at = At::new(h2, k + up, 0, 0, &l2);
    tape_record();
    for _ in 0..n {
        let e = menu[choose(menu.len() as u64, "event") as usize];
        at.play(e);
    }
    end_commit_pause();
    tape_off();
    let a = view(m);
    let out = w().log.len();
    // out again
    if !a.iter().any(|x| x.0 == 8) {
        let l3 = out_list(1);
        w().commit_list = l3.clone();
        deliver(status(h2 + 1, &l3));
        let at3 = At::new(h2 + 1, k + up + 1, 0, 0, &l3);
        let e = after[choose(after.len() as u64, "event") as usize];
        around(&mut d, &at3, e);
        silent(out);
    }
    // a node that was never outside
    reset(0);
    w().own_block = 2;
    start(d.h, 3000, list(4), None);
    settle();
    let m = w().log.len();
    w().commit_list = l2.clone();
    deliver(status(h2, &l2));
    tape_play();
    for _ in 0..n {
        let e = menu[choose(menu.len() as u64, "event") as usize];
        at.play(e);
    }
    end_commit_pause();
    tape_off();
    let b = view(m);
    same(&a, &b, "C18: a node that is listed again takes part like any other");
    reach("end");
}
pub fn c18_again() {
    again(&[1], &[0, 2, 6, 10], &[0, 5, 6], &[0, 1], &[S::Prop(1), S::Qc(1, 0), S::Votes(1, 2), S::Chokes, S::Timer], 1, &[0, 2, 5, 6])
}
pub fn c18_againd() {
    again(&[1, 3], WAYS, &[0, 1, 2, 3, 4, 5, 6, 8, 9], &[0, 1, 3], MENU, 1, &[0, 1, 2, 3, 4, 5, 6, 8, 9])
}
