use crate::sym::*;
use crate::world::*;
use overlord::types::*;

/// From a logged state at step propose: one proposal and the two certificates.
pub fn flow() {
    let l = list(4);
    reset(0);
    w().commit_list = l.clone();
    let h = 1 + below(100, "h");
    let r = below(100, "r");
    w().wal = Some(wal_record(h, r, PROPOSE, None, &init_from()));
    start(h, 3000, l.clone(), None);
    settle();
    reach("started");
    w().auto_check = true;
    let b = hash(1);
    let p = choose(4, "proposer") as usize;
    deliver(OverlordMsg::SignedProposal(proposal(h, r, &b, 1, None, p)));
    let bm = [0xf0u8, 0xe0, 0xc0][choose(3, "bm") as usize];
    deliver(OverlordMsg::AggregatedVote(qc(&l, 1, h, r, &b, bm)));
    let bm = [0xf0u8, 0xe0, 0xc0][choose(3, "bm") as usize];
    deliver(OverlordMsg::AggregatedVote(qc(&l, 2, h, r, &b, bm)));
    end_commit_pause();
    for e in w().log.iter() {
        match e {
            Ev::Xmit(..) => note("xmit", 1),
            Ev::Commit(h, _) => { note("commit", *h); reach("commit") }
            Ev::Wal(b) => { let x = parse_record(b); note("wal.step", x.step as u64) }
            Ev::Bcast(_) => note("bcast", 1),
            _ => {}
        }
    }
}
