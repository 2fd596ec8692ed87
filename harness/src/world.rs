//! The environment of a node: mock network, application, write-ahead log and
//! signature scheme.  Everything the node does to the outside is recorded in
//! `w().log`; everything the outside does to the node comes from the harness.
#![allow(static_mut_refs)]
use crate::sym::*;
use async_trait::async_trait;
use bytes::Bytes;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Codec, Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use rlp::RlpStream;
use std::error::Error;
use std::sync::Arc;
use tokio::verif as rt;

type Res<T> = Result<T, Box<dyn Error + Send>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk(pub u8);
impl Codec for Blk {
    fn encode(&self) -> Res<Bytes> {
        Ok(Bytes::from(vec![self.0]))
    }
    fn decode(data: Bytes) -> Res<Self> {
        if data.len() == 1 {
            Ok(Blk(data[0]))
        } else {
            Err(fail())
        }
    }
}

#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl Error for Refused {}
pub fn fail() -> Box<dyn Error + Send> {
    Box::new(Refused)
}

pub type Msg = OverlordMsg<Blk>;

/// One externally visible action of the node.
#[derive(Clone)]
pub enum Ev {
    Wal(Bytes),
    WalFail,
    Bcast(Msg),
    Xmit(Address, Msg),
    CheckReq { h: u64, hash: Hash, blk: Blk, id: usize },
    GetBlock(u64, u8),
    Commit(u64, Commit<Blk>),
    CommitOk(u64),
    Restart,
    // what the harness did, with what it means
    InProp { h: u64, r: u64, b: u8, content: u8, valid: bool, polc: Option<u64> },
    InQc { t: u8, h: u64, r: u64, b: u8, valid: bool },
    InChoke { h: u64, r: u64, from: usize, valid: bool },
    InAgg { h: u64, r: u64, valid: bool },
    InStatus { h: u64, member: bool },
    Done { h: u64, hash: Hash, blk: Blk, ok: bool },
    Stop,
}

/// What a signature token really signs.
pub struct Sig {
    pub msg: Bytes,
    pub signers: Vec<Address>,
    pub ok: bool,
}

pub struct CheckRec {
    pub h: u64,
    pub hash: Hash,
    pub blk: Blk,
    pub result: Option<bool>,
    pub waker: Option<std::task::Waker>,
}

pub struct World {
    pub me: usize,
    pub sigs: Vec<Sig>,
    pub log: Vec<Ev>,
    pub wal: Option<Bytes>,
    pub wal_fail: u32,
    pub checks: Vec<CheckRec>,
    pub auto_check: bool,
    pub own_block: u8,
    pub own_vary: bool,
    /// how often a call of the application may take time
    pub yields: u32,
    pub crash: u32,
    pub crashed: bool,
    pub commit_fail: u32,
    /// height of the status a commit returns, if not the next one
    pub commit_height: Option<u64>,
    /// the next save fails
    pub wal_fail_now: bool,
    pub commit_list: Vec<Node>,
    pub commit_interval: Option<u64>,
    pub commit_config: Option<DurationConfig>,
    pub handler: Option<OverlordHandler<Blk>>,
    pub select: usize,
    pub node: usize,
    pub main_task: usize,
    pub steps: usize,
    pub waiting: Vec<std::task::Waker>,
    pub ended: bool,
    /// voters of every aggregated signature the node verified
    pub agg_seen: Vec<Vec<Address>>,
}

static mut WORLD: Option<World> = None;
pub fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}
pub fn reset(me: usize) {
    rt::reset();
    unsafe {
        std::mem::forget(WORLD.take());
        WORLD = Some(World {
            me,
            sigs: Vec::new(),
            log: Vec::new(),
            wal: None,
            wal_fail: 0,
            checks: Vec::new(),
            auto_check: false,
            own_block: 1,
            own_vary: false,
            yields: 0,
            crash: 0,
            crashed: false,
            commit_fail: 0,
            commit_height: None,
            wal_fail_now: false,
            commit_list: Vec::new(),
            commit_interval: None,
            commit_config: None,
            handler: None,
            select: 0,
            node: 0,
            main_task: 0,
            steps: 0,
            waiting: Vec::new(),
            ended: false,
            agg_seen: Vec::new(),
        })
    }
}

#[no_mangle]
pub extern "C" fn vf_select_pick(n: usize) -> usize {
    match unsafe { &WORLD } {
        Some(w) => w.select % n,
        None => 0,
    }
}

static ADDRS: [u8; 72] = [
    0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xab, //
    0xac, 0xad, 0xae, 0xaf, 0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, //
    0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, //
    0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, //
    0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, //
    0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, //
];
static HASHES: [u8; 8] = [0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7];
pub fn addr(i: usize) -> Address {
    Bytes::from_static(&ADDRS[i..i + 1])
}
/// Hash of block `b`; block 0 stands for "no block" (empty hash).
pub fn hash(b: u8) -> Hash {
    if b == 0 {
        Bytes::new()
    } else {
        Bytes::from_static(&HASHES[b as usize..b as usize + 1])
    }
}
pub fn leader_index(h: u64, r: u64, l: &[Node]) -> usize {
    (overlord::get_leader(h, r, l.to_vec())[0] - 0xa0) as usize
}
pub fn list(n: usize) -> Vec<Node> {
    (0..n).map(|i| Node::new(addr(i))).collect()
}

// ---------------------------------------------------------------- signatures

pub fn token(i: usize) -> Signature {
    Bytes::from(vec![0xe0, i as u8])
}
pub fn sign_as(msg: Bytes, signers: Vec<Address>, ok: bool) -> Signature {
    w().sigs.push(Sig { msg, signers, ok });
    token(w().sigs.len() - 1)
}
pub fn lookup(s: &Signature) -> Option<&'static Sig> {
    if s.len() == 2 && s[0] == 0xe0 {
        w().sigs.get(s[1] as usize)
    } else {
        None
    }
}
pub fn same_set(a: &[Address], b: &[Address]) -> bool {
    // multiset equality
    a.len() == b.len() && a.iter().all(|x| a.iter().filter(|y| *y == x).count() == b.iter().filter(|y| *y == x).count())
}
pub fn verifies(s: &Signature, msg: &Bytes, voters: &[Address]) -> bool {
    match lookup(s) {
        Some(r) => r.ok && same_set(&r.signers, voters) && r.msg == *msg,
        None => false,
    }
}

pub struct Cry;
impl Crypto for Cry {
    fn hash(&self, msg: Bytes) -> Hash {
        msg
    }
    fn sign(&self, hash: Hash) -> Res<Signature> {
        Ok(sign_as(hash, vec![addr(w().me)], true))
    }
    fn aggregate_signatures(&self, signatures: Vec<Signature>, voters: Vec<Address>) -> Res<Signature> {
        let mut ok = !signatures.is_empty() && signatures.len() == voters.len();
        let mut msg = Bytes::new();
        for (i, s) in signatures.iter().enumerate() {
            match lookup(s) {
                Some(r) => {
                    if i == 0 {
                        msg = r.msg.clone();
                    }
                    ok = ok && r.ok && r.msg == msg && i < voters.len() && r.signers.len() == 1 && r.signers[0] == voters[i];
                }
                None => ok = false,
            }
        }
        Ok(sign_as(msg, voters, ok))
    }
    fn verify_signature(&self, signature: Signature, hash: Hash, voter: Address) -> Res<()> {
        if verifies(&signature, &hash, &[voter]) {
            Ok(())
        } else {
            Err(fail())
        }
    }
    fn verify_aggregated_signature(&self, sig: Signature, hash: Hash, voters: Vec<Address>) -> Res<()> {
        w().agg_seen.push(voters.clone());
        if verifies(&sig, &hash, &voters) {
            Ok(())
        } else {
            Err(fail())
        }
    }
}

// --------------------------------------------------- application and network

/// A call of the application may take a while, and other parts of the node go on.
async fn pause() {
    if w().yields > 0 && flip("takes time") {
        w().yields -= 1;
        Yield(false).await;
    }
}
/// Waits until all other tasks wait.
struct Yield(bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        w().waiting.push(cx.waker().clone());
        std::task::Poll::Pending
    }
}
/// A crash may happen right before each externally visible effect.
async fn crash_point() {
    pause().await;
    if w().crash > 0 && flip("crash") {
        w().crash -= 1;
        w().crashed = true;
        std::future::pending::<()>().await;
    }
}

struct CheckWait(usize);
impl std::future::Future for CheckWait {
    type Output = bool;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<bool> {
        let c = &mut w().checks[self.0];
        match c.result {
            Some(b) => std::task::Poll::Ready(b),
            None => {
                c.waker = Some(cx.waker().clone());
                std::task::Poll::Pending
            }
        }
    }
}

pub struct Net;
#[async_trait]
impl Consensus<Blk> for Net {
    async fn get_block(&self, _: Context, height: u64) -> Res<(Blk, Hash)> {
        pause().await;
        let b = w().own_block;
        w().log.push(Ev::GetBlock(height, b));
        if w().own_vary {
            // every block the application makes is another one
            w().own_block = if b == 2 { 4 } else { b + 1 };
        }
        Ok((Blk(b), hash(b)))
    }
    async fn check_block(&self, _: Context, h: u64, hash: Hash, blk: Blk) -> Res<()> {
        let id = w().checks.len();
        let result = if w().auto_check { Some(true) } else { None };
        w().checks.push(CheckRec { h, hash: hash.clone(), blk: blk.clone(), result, waker: None });
        w().log.push(Ev::CheckReq { h, hash: hash.clone(), blk: blk.clone(), id });
        if w().auto_check {
            w().log.push(Ev::Done { h, hash, blk, ok: true });
        }
        if CheckWait(id).await {
            Ok(())
        } else {
            Err(fail())
        }
    }
    async fn commit(&self, _: Context, height: u64, commit: Commit<Blk>) -> Res<Status> {
        crash_point().await;
        w().log.push(Ev::Commit(height, commit));
        if w().commit_fail > 0 && flip("commit_fail") {
            w().commit_fail -= 1;
            return Err(fail());
        }
        w().log.push(Ev::CommitOk(height));
        Ok(Status {
            height: w().commit_height.unwrap_or(height + 1),
            interval: w().commit_interval,
            timer_config: w().commit_config.clone(),
            authority_list: w().commit_list.clone(),
        })
    }
    async fn get_authority_list(&self, _: Context, _: u64) -> Res<Vec<Node>> {
        Ok(w().commit_list.clone())
    }
    async fn broadcast_to_other(&self, _: Context, msg: Msg) -> Res<()> {
        crash_point().await;
        w().log.push(Ev::Bcast(msg));
        Ok(())
    }
    async fn transmit_to_relayer(&self, _: Context, to: Address, msg: Msg) -> Res<()> {
        crash_point().await;
        w().log.push(Ev::Xmit(to, msg));
        Ok(())
    }
    fn report_error(&self, _: Context, _: ConsensusError) {}
    fn report_view_change(&self, _: Context, _: u64, _: u64, _: ViewChangeReason) {}
}

pub struct Log;
#[async_trait]
impl Wal for Log {
    async fn save(&self, info: Bytes) -> Res<()> {
        crash_point().await;
        if w().wal_fail_now || (w().wal_fail > 0 && flip("wal_fail")) {
            w().wal_fail = w().wal_fail.saturating_sub(1);
            w().wal_fail_now = false;
            w().log.push(Ev::WalFail);
            return Err(fail());
        }
        w().wal = Some(info.clone());
        w().log.push(Ev::Wal(info));
        Ok(())
    }
    async fn load(&self) -> Res<Option<Bytes>> {
        Ok(w().wal.clone())
    }
}

// ------------------------------------------------------------------- running

/// Starts a node the way an application does.
pub fn start(init_height: u64, interval: u64, l: Vec<Node>, cfg: Option<DurationConfig>) {
    rt::set_node(w().node);
    let ov = Overlord::<Blk, Net, Cry, Log>::new(addr(w().me), Arc::new(Net), Arc::new(Cry), Arc::new(Log));
    w().handler = Some(ov.get_handler());
    w().main_task = rt::task_count();
    tokio::spawn(async move {
        let _ = ov.run(init_height, interval, l, cfg).await;
        w().ended = true;
    });
}
/// One task until it waits again; false if every task waits.
pub fn tick() -> bool {
    if w().crashed {
        return false;
    }
    w().steps += 1;
    assert!(w().steps < 2000, "run does not settle");
    if rt::step() {
        return true;
    }
    if w().waiting.is_empty() {
        return false;
    }
    w().waiting.remove(0).wake();
    rt::step()
}
/// Until every task of the node waits (or the node crashed).
pub fn settle() {
    while tick() {}
}
pub fn send(m: Msg) {
    if let Some(h) = &w().handler {
        let _ = h.send_msg(Context::new(), m);
    }
}
pub fn deliver(m: Msg) {
    send(m);
    settle();
}
/// Crash (if not crashed already) and restart from the log.
pub fn restart(init_height: u64, l: Vec<Node>) {
    rt::crash_node(w().node);
    std::mem::forget(std::mem::take(&mut w().waiting));
    std::mem::forget(w().handler.take());
    w().crashed = false;
    w().node += 1;
    w().log.push(Ev::Restart);
    start(init_height, 3000, l, None);
}
pub fn finish_check(id: usize, ok: bool) {
    let c = &mut w().checks[id];
    c.result = Some(ok);
    w().log.push(Ev::Done { h: c.h, hash: c.hash.clone(), blk: c.blk.clone(), ok });
    if let Some(wk) = c.waker.take() {
        wk.wake();
    }
}
pub fn open_checks() -> Vec<usize> {
    (0..w().checks.len()).filter(|&i| w().checks[i].result.is_none()).collect()
}
/// Sleeps of the running node that have not expired.
pub fn pending_sleeps() -> Vec<usize> {
    (0..rt::sleep_count())
        .filter(|&i| {
            let (_, s, n, _) = rt::sleep_info(i);
            s == rt::SleepState::Pending && n == w().node
        })
        .collect()
}
pub fn fire(i: usize) {
    rt::expire(i);
    settle();
}
/// Lets the pause between a commit and the next height end, if there is one.
pub fn end_commit_pause() {
    for i in pending_sleeps() {
        if rt::sleep_info(i).3 == w().main_task {
            fire(i);
        }
    }
}

// ------------------------------------------------------------------ messages

pub fn vt(t: u8) -> VoteType {
    if t == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}
pub fn vote_bytes(t: u8, h: u64, r: u64, b: &Hash) -> Bytes {
    let mut s = RlpStream::new_list(4);
    s.append(&h).append(&r).append(&t).append(&b.to_vec());
    Bytes::from(s.out().to_vec())
}
pub fn choke_bytes(h: u64, r: u64) -> Bytes {
    let mut s = RlpStream::new_list(2);
    s.append(&h).append(&r);
    Bytes::from(s.out().to_vec())
}
/// Members of `l` (sorted by address) marked in `bitmap`, most significant bit first.
pub fn marked(l: &[Node], bitmap: &[u8]) -> Vec<Address> {
    let mut a: Vec<Address> = l.iter().map(|n| n.address.clone()).collect();
    a.sort();
    let mut v = Vec::new();
    for (i, x) in a.iter().enumerate() {
        if i / 8 < bitmap.len() && bitmap[i / 8] & (0x80 >> (i % 8)) != 0 {
            v.push(x.clone());
        }
    }
    v
}
pub fn raw_qc(t: u8, h: u64, r: u64, b: &Hash, bitmap: u8, sig: Signature) -> AggregatedVote {
    AggregatedVote {
        signature: AggregatedSignature { signature: sig, address_bitmap: Bytes::from(vec![bitmap]) },
        vote_type: vt(t),
        height: h,
        round: r,
        block_hash: b.clone(),
        leader: addr(0),
    }
}
/// A certificate correctly signed by the validators in `bitmap`.
pub fn qc(l: &[Node], t: u8, h: u64, r: u64, b: &Hash, bitmap: u8) -> AggregatedVote {
    let sig = sign_as(vote_bytes(t, h, r, b), marked(l, &[bitmap]), true);
    raw_qc(t, h, r, b, bitmap, sig)
}
pub fn vote(t: u8, h: u64, r: u64, b: &Hash, voter: usize) -> SignedVote {
    let sig = sign_as(vote_bytes(t, h, r, b), vec![addr(voter)], true);
    SignedVote {
        signature: sig,
        vote: Vote { height: h, round: r, vote_type: vt(t), block_hash: b.clone() },
        voter: addr(voter),
    }
}
pub fn proposal(h: u64, r: u64, b: &Hash, content: u8, lock: Option<PoLC>, proposer: usize) -> SignedProposal<Blk> {
    let p = Proposal {
        height: h,
        round: r,
        content: Blk(content),
        block_hash: b.clone(),
        lock,
        proposer: addr(proposer),
    };
    let sig = sign_as(Bytes::from(rlp::encode(&p).to_vec()), vec![addr(proposer)], true);
    SignedProposal { signature: sig, proposal: p }
}
pub fn choke(h: u64, r: u64, from: UpdateFrom, sender: usize) -> SignedChoke {
    let sig = sign_as(choke_bytes(h, r), vec![addr(sender)], true);
    SignedChoke {
        signature: sig,
        choke: Choke { height: h, round: r, from },
        address: addr(sender),
    }
}
pub fn init_from() -> UpdateFrom {
    UpdateFrom::PrecommitQC(AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: Bytes::new(),
        leader: Bytes::new(),
    })
}
pub fn status(h: u64, l: &[Node]) -> Msg {
    OverlordMsg::RichStatus(Status { height: h, interval: None, timer_config: None, authority_list: l.to_vec() })
}

// ------------------------------------------------------------ write-ahead log

pub const PROPOSE: u8 = 0;
pub const PREVOTE: u8 = 1;
pub const PRECOMMIT: u8 = 2;
pub const BRAKE: u8 = 3;
pub const COMMIT: u8 = 4;

/// Bytes of a log record, in the crate's log format.
pub fn wal_record(h: u64, r: u64, step: u8, lock: Option<(u64, &AggregatedVote, u8)>, from: &UpdateFrom) -> Bytes {
    let mut s = RlpStream::new_list(5);
    s.append(&h).append(&r).append(&step);
    match lock {
        None => {
            s.begin_list(0);
        }
        Some((lr, q, c)) => {
            s.begin_list(1);
            s.begin_list(3).append(&lr).append(q).append(&vec![c]);
        }
    }
    s.append(from);
    Bytes::from(s.out().to_vec())
}

/// A decoded log record.
pub struct Rec {
    pub h: u64,
    pub r: u64,
    pub step: u8,
    pub lock: Option<(u64, AggregatedVote, u8)>,
}
pub fn parse_record(b: &Bytes) -> Rec {
    let x = rlp::Rlp::new(b.as_ref());
    let l = x.at(3).unwrap();
    let lock = if l.item_count().unwrap() == 0 {
        None
    } else {
        let k = l.at(0).unwrap();
        let c: Vec<u8> = k.val_at(2).unwrap();
        Some((k.val_at(0).unwrap(), k.val_at(1).unwrap(), c[0]))
    };
    Rec { h: x.val_at(0).unwrap(), r: x.val_at(1).unwrap(), step: x.val_at(2).unwrap(), lock }
}
