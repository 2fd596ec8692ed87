//! One real node on a paused tokio clock, with everything around it scripted.
#![allow(dead_code)]
use async_trait::async_trait;
use bytes::Bytes;
use overlord::error::ConsensusError;
use overlord::types::*;
pub use overlord::types;
pub use overlord::{get_leader, Codec, Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use std::error::Error;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Res<T> = Result<T, Box<dyn Error + Send>>;
#[derive(Debug)]
struct No;
impl std::fmt::Display for No {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no")
    }
}
impl Error for No {}
fn no<T>() -> Res<T> {
    Err(Box::new(No))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk(pub u8);
impl Codec for Blk {
    fn encode(&self) -> Res<Bytes> {
        Ok(Bytes::from(vec![self.0]))
    }
    fn decode(data: Bytes) -> Res<Self> {
        if data.len() == 1 {
            Ok(Blk(data[0]))
        } else {
            no()
        }
    }
}
pub type Msg = OverlordMsg<Blk>;

#[derive(Clone, Debug)]
pub enum Ev {
    Wal(Bytes),
    Bcast(Msg),
    Xmit(Address, Msg),
    Check(u64, Hash),
    GetBlock(u64),
    Commit(u64, Commit<Blk>),
}

/// Answers of the application and what the node did.
pub struct W {
    pub me: usize,
    pub log: Vec<Ev>,
    pub wal: Option<Bytes>,
    pub wal_fail: bool,
    /// None: the check does not end
    pub check: Option<bool>,
    pub commit_fail: bool,
    pub next: Status,
    pub own: u8,
}
#[derive(Clone)]
pub struct Env(pub Arc<Mutex<W>>);

fn sig(msg: &[u8], who: &[Address]) -> Signature {
    let mut who = who.to_vec();
    who.sort();
    let mut v = vec![who.len() as u8];
    for a in who {
        v.push(a[0]);
    }
    v.extend_from_slice(msg);
    Bytes::from(v)
}
impl Crypto for Env {
    fn hash(&self, msg: Bytes) -> Hash {
        msg
    }
    fn sign(&self, hash: Hash) -> Res<Signature> {
        Ok(sig(&hash, &[addr(self.0.lock().unwrap().me)]))
    }
    fn aggregate_signatures(&self, s: Vec<Signature>, voters: Vec<Address>) -> Res<Signature> {
        if s.is_empty() || s.len() != voters.len() {
            return no();
        }
        for (x, v) in s.iter().zip(voters.iter()) {
            if *x != sig(&s[0][2..], &[v.clone()]) {
                return Ok(Bytes::from("broken"));
            }
        }
        Ok(sig(&s[0][2..], &voters))
    }
    fn verify_signature(&self, s: Signature, hash: Hash, voter: Address) -> Res<()> {
        if s == sig(&hash, &[voter]) {
            Ok(())
        } else {
            no()
        }
    }
    fn verify_aggregated_signature(&self, s: Signature, hash: Hash, voters: Vec<Address>) -> Res<()> {
        if s == sig(&hash, &voters) {
            Ok(())
        } else {
            no()
        }
    }
}
#[async_trait]
impl Wal for Env {
    async fn save(&self, info: Bytes) -> Res<()> {
        let mut w = self.0.lock().unwrap();
        if w.wal_fail {
            return no();
        }
        w.log.push(Ev::Wal(info.clone()));
        w.wal = Some(info);
        Ok(())
    }
    async fn load(&self) -> Res<Option<Bytes>> {
        Ok(self.0.lock().unwrap().wal.clone())
    }
}
#[async_trait]
impl Consensus<Blk> for Env {
    async fn get_block(&self, _: Context, height: u64) -> Res<(Blk, Hash)> {
        let mut w = self.0.lock().unwrap();
        w.log.push(Ev::GetBlock(height));
        Ok((Blk(w.own), hash(w.own)))
    }
    async fn check_block(&self, _: Context, h: u64, hash: Hash, _: Blk) -> Res<()> {
        self.0.lock().unwrap().log.push(Ev::Check(h, hash));
        loop {
            let c = self.0.lock().unwrap().check;
            match c {
                Some(true) => return Ok(()),
                Some(false) => return no(),
                None => tokio::time::sleep(Duration::from_micros(500)).await,
            }
        }
    }
    async fn commit(&self, _: Context, height: u64, commit: Commit<Blk>) -> Res<Status> {
        let mut w = self.0.lock().unwrap();
        w.log.push(Ev::Commit(height, commit));
        if w.commit_fail {
            return no();
        }
        let mut s = w.next.clone();
        if s.height == 0 {
            s.height = height + 1;
        }
        Ok(s)
    }
    async fn get_authority_list(&self, _: Context, _: u64) -> Res<Vec<Node>> {
        Ok(self.0.lock().unwrap().next.authority_list.clone())
    }
    async fn broadcast_to_other(&self, _: Context, m: Msg) -> Res<()> {
        self.0.lock().unwrap().log.push(Ev::Bcast(m));
        Ok(())
    }
    async fn transmit_to_relayer(&self, _: Context, a: Address, m: Msg) -> Res<()> {
        self.0.lock().unwrap().log.push(Ev::Xmit(a, m));
        Ok(())
    }
    fn report_error(&self, _: Context, _: ConsensusError) {}
    fn report_view_change(&self, _: Context, _: u64, _: u64, _: ViewChangeReason) {}
}

pub fn addr(i: usize) -> Address {
    Bytes::from(vec![0xa0 + i as u8])
}
/// block 0: no block
pub fn hash(b: u8) -> Hash {
    if b == 0 {
        Bytes::new()
    } else {
        Bytes::from(vec![0xb0, b])
    }
}
pub fn list(n: usize) -> Vec<Node> {
    (0..n).map(|i| Node::new(addr(i))).collect()
}
pub fn weighted(ws: &[u32]) -> Vec<Node> {
    let mut l = list(ws.len());
    for (n, w) in l.iter_mut().zip(ws) {
        n.set_vote_weight(*w);
    }
    l
}
pub fn leader(h: u64, r: u64, l: &[Node]) -> usize {
    get_leader(h, r, l.to_vec())[0] as usize - 0xa0
}
pub fn status(h: u64, l: &[Node]) -> Status {
    Status { height: h, interval: None, timer_config: None, authority_list: l.to_vec() }
}
fn enc<E: rlp::Encodable>(x: &E) -> Vec<u8> {
    rlp::encode(x).to_vec()
}
pub fn proposal(h: u64, r: u64, b: u8, lock: Option<PoLC>, who: usize) -> Msg {
    let p = Proposal { height: h, round: r, content: Blk(b), block_hash: hash(b), lock, proposer: addr(who) };
    OverlordMsg::SignedProposal(SignedProposal { signature: sig(&enc(&p), &[addr(who)]), proposal: p })
}
pub fn the_vote(t: VoteType, h: u64, r: u64, b: u8) -> Vote {
    Vote { height: h, round: r, vote_type: t, block_hash: hash(b) }
}
pub fn vote(t: VoteType, h: u64, r: u64, b: u8, who: usize) -> Msg {
    let v = the_vote(t, h, r, b);
    OverlordMsg::SignedVote(SignedVote { signature: sig(&enc(&v), &[addr(who)]), vote: v, voter: addr(who) })
}
/// certificate of these members of a list sorted by address
pub fn qc(l: &[Node], t: VoteType, h: u64, r: u64, b: u8, who: &[usize]) -> AggregatedVote {
    let v = the_vote(t.clone(), h, r, b);
    let mut l = l.to_vec();
    l.sort();
    let mut map = vec![0u8; (l.len() + 7) / 8];
    let mut signers = Vec::new();
    for (i, n) in l.iter().enumerate() {
        if who.iter().any(|k| addr(*k) == n.address) {
            map[i / 8] |= 0x80 >> (i % 8);
            signers.push(n.address.clone());
        }
    }
    AggregatedVote {
        signature: AggregatedSignature { signature: sig(&enc(&v), &signers), address_bitmap: Bytes::from(map) },
        vote_type: t,
        height: h,
        round: r,
        block_hash: hash(b),
        leader: addr(leader(h, r, &l)),
    }
}
pub fn init_from() -> UpdateFrom {
    UpdateFrom::PrecommitQC(AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: Bytes::new(),
        leader: Bytes::new(),
    })
}
/// What the signature of a choke covers.
pub fn choke_bytes(h: u64, r: u64) -> Vec<u8> {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    s.out().to_vec()
}
pub fn choke(h: u64, r: u64, from: UpdateFrom, who: usize) -> Msg {
    let s = sig(&choke_bytes(h, r), &[addr(who)]);
    OverlordMsg::SignedChoke(SignedChoke { signature: s, choke: Choke { height: h, round: r, from }, address: addr(who) })
}
pub fn agg_choke(h: u64, r: u64, who: &[usize]) -> AggregatedChoke {
    let v: Vec<Address> = who.iter().map(|i| addr(*i)).collect();
    AggregatedChoke { height: h, round: r, signature: sig(&choke_bytes(h, r), &v), voters: v }
}

pub struct N {
    pub env: Env,
    pub h: OverlordHandler<Blk>,
    pub task: tokio::task::JoinHandle<()>,
}
pub fn env(me: usize, l: &[Node]) -> Env {
    Env(Arc::new(Mutex::new(W {
        me,
        log: Vec::new(),
        wal: None,
        wal_fail: false,
        check: Some(true),
        commit_fail: false,
        next: status(0, l),
        own: 9,
    })))
}
impl N {
    /// Starts (or restarts) a node; interval 100 s, so that timers are far away.
    pub async fn start(e: &Env, height: u64, l: &[Node]) -> N {
        N::start_with(e, height, l, 100_000, None).await
    }
    pub async fn start_with(e: &Env, height: u64, l: &[Node], interval: u64, c: Option<DurationConfig>) -> N {
        let me = e.0.lock().unwrap().me;
        let a = Arc::new(e.clone());
        let o = Overlord::new(addr(me), Arc::clone(&a), Arc::clone(&a), a);
        let h = o.get_handler();
        let l = l.to_vec();
        let task = tokio::spawn(async move {
            let _ = o.run(height, interval, l, c).await;
        });
        let n = N { env: e.clone(), h, task };
        n.settle().await;
        n
    }
    pub async fn settle(&self) {
        for _ in 0..5 {
            for _ in 0..200 {
                tokio::task::yield_now().await;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    pub async fn send(&self, m: Msg) {
        let _ = self.h.send_msg(Context::new(), m);
        self.settle().await;
    }
    pub async fn status(&self, h: u64, l: &[Node]) {
        self.send(OverlordMsg::RichStatus(status(h, l))).await;
    }
    pub async fn wait(&self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        self.settle().await;
    }
    pub fn w<T>(&self, f: impl FnOnce(&mut W) -> T) -> T {
        f(&mut self.env.0.lock().unwrap())
    }
    pub fn mark(&self) -> usize {
        self.w(|w| w.log.len())
    }
    pub fn since(&self, m: usize) -> Vec<Ev> {
        self.w(|w| w.log[m..].to_vec())
    }
    /// own votes that left the node: type, height, round, block hash
    pub fn votes(&self, m: usize) -> Vec<(bool, u64, u64, Hash)> {
        self.since(m)
            .into_iter()
            .filter_map(|e| match e {
                Ev::Xmit(_, OverlordMsg::SignedVote(v)) => Some((v.is_prevote(), v.vote.height, v.vote.round, v.vote.block_hash)),
                _ => None,
            })
            .collect()
    }
    pub fn commits(&self, m: usize) -> Vec<(u64, Commit<Blk>)> {
        self.since(m)
            .into_iter()
            .filter_map(|e| match e {
                Ev::Commit(h, c) => Some((h, c)),
                _ => None,
            })
            .collect()
    }
    pub fn qcs(&self, m: usize) -> Vec<AggregatedVote> {
        self.since(m)
            .into_iter()
            .filter_map(|e| match e {
                Ev::Bcast(OverlordMsg::AggregatedVote(q)) => Some(q),
                _ => None,
            })
            .collect()
    }
    pub fn chokes(&self, m: usize) -> Vec<(u64, u64)> {
        self.since(m)
            .into_iter()
            .filter_map(|e| match e {
                Ev::Bcast(OverlordMsg::SignedChoke(c)) => Some((c.choke.height, c.choke.round)),
                _ => None,
            })
            .collect()
    }
    pub fn proposals(&self, m: usize) -> Vec<Proposal<Blk>> {
        self.since(m)
            .into_iter()
            .filter_map(|e| match e {
                Ev::Bcast(OverlordMsg::SignedProposal(p)) => Some(p.proposal),
                _ => None,
            })
            .collect()
    }
    /// (height, round) of the log records
    pub fn records(&self, m: usize) -> Vec<(u64, u64, u64, bool)> {
        self.since(m)
            .into_iter()
            .filter_map(|e| match e {
                Ev::Wal(b) => {
                    let r = rlp::Rlp::new(&b);
                    let at = |i| r.val_at::<u64>(i).unwrap();
                    Some((at(0), at(1), at(2), !r.at(4).unwrap().is_empty() && r.at(4).unwrap().item_count().map(|n| n > 0).unwrap_or(true)))
                }
                _ => None,
            })
            .collect()
    }
}
/// Runs a demonstration; `false` means the property is broken.
pub fn demo<F: std::future::Future<Output = bool>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let ok = rt.block_on(f);
    println!("{}", if ok { "holds" } else { "BROKEN" });
    std::process::exit(if ok { 0 } else { 1 });
}
