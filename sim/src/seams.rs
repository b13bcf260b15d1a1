//! The library's own seams (signer, ciphertext store, listener, random numbers), implemented by
//! the simulator: every one of them can suspend the calling task, and can be told to fail.
use crate::det::mix3;
use crate::exec::yield_point;
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use ed25519_dalek::Signer as _;
use future_form::{FutureForm, Local};
use keyhive_core::{
    event::{static_event::StaticEvent, Event},
    keyhive::Keyhive,
    listener::{cgka::CgkaListener, membership::MembershipListener, prekey::PrekeyListener},
    principal::{
        group::{delegation::Delegation, revocation::Revocation},
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp},
    },
    store::ciphertext::{memory::MemoryCiphertextStore, CiphertextStore},
};
use keyhive_crypto::{
    digest::Digest,
    signed::{Signed, SigningError},
    signer::async_signer::AsyncSigner,
    verifiable::Verifiable,
};
use rand::{RngCore, SeedableRng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub type T = [u8; 32];
pub type Sev = StaticEvent<T>;
pub type Kh = Keyhive<Local, SimSigner, T, Vec<u8>, SimStore, SimListener, SimRng>;
pub type Fut<'a, O> = <Local as FutureForm>::Future<'a, O>;

#[derive(Default, Debug)]
pub struct Faults {
    pub sign_calls: Cell<u64>,
    /// Fail the signing call with this index (counted by sign_calls).
    pub sign_fail_at: Cell<Option<u64>>,
    pub sign_failed: Cell<u64>,
    /// Fail every signing call while set.
    pub sign_down: Cell<bool>,
}

#[derive(Clone, Debug)]
pub struct SimSigner {
    pub key: Rc<ed25519_dalek::SigningKey>,
    pub faults: Rc<Faults>,
}

impl Verifiable for SimSigner {
    fn verifying_key(&self) -> ed25519_dalek::VerifyingKey {
        self.key.verifying_key()
    }
}

impl AsyncSigner<Local> for SimSigner {
    fn try_sign_bytes_async<'a>(
        &'a self,
        bytes: &'a [u8],
    ) -> Fut<'a, Result<ed25519_dalek::Signature, SigningError>> {
        Local::from_future(async move {
            yield_point().await;
            let n = self.faults.sign_calls.get();
            self.faults.sign_calls.set(n + 1);
            if self.faults.sign_down.get() || self.faults.sign_fail_at.get() == Some(n) {
                self.faults
                    .sign_failed
                    .set(self.faults.sign_failed.get() + 1);
                return Err(SigningError::SigningFailed(
                    ed25519_dalek::SignatureError::new(),
                ));
            }
            let sig = self
                .key
                .try_sign(bytes)
                .map_err(SigningError::SigningFailed)?;
            yield_point().await;
            Ok(sig)
        })
    }
}

/// Random numbers: a generator the simulator re-seeds from (run seed, step, node) before each step.
#[derive(Clone, Debug)]
pub struct SimRng(pub Rc<RefCell<rand_chacha::ChaCha12Rng>>);

impl SimRng {
    pub fn new(seed: u64) -> Self {
        SimRng(Rc::new(RefCell::new(
            rand_chacha::ChaCha12Rng::seed_from_u64(seed),
        )))
    }
    pub fn reseed(&self, a: u64, b: u64, c: u64) {
        *self.0.borrow_mut() = rand_chacha::ChaCha12Rng::seed_from_u64(mix3(a, b, c));
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.0.borrow_mut().next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.borrow_mut().next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.borrow_mut().fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.0.borrow_mut().try_fill_bytes(d)
    }
}
impl rand::CryptoRng for SimRng {}

/// Listener: records everything announced, as it would go on the wire.
#[derive(Clone, Debug, Default)]
pub struct SimListener {
    pub log: Rc<RefCell<Vec<Sev>>>,
}

impl SimListener {
    async fn rec(&self, e: Event<Local, SimSigner, T, SimListener>) {
        yield_point().await;
        self.log.borrow_mut().push(e.into());
    }
    pub fn drain(&self) -> Vec<Sev> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
}

impl PrekeyListener<Local> for SimListener {
    fn on_prekeys_expanded<'a>(&'a self, e: &'a Arc<Signed<AddKeyOp>>) -> Fut<'a, ()> {
        Local::from_future(self.rec(Event::PrekeysExpanded(e.clone())))
    }
    fn on_prekey_rotated<'a>(&'a self, e: &'a Arc<Signed<RotateKeyOp>>) -> Fut<'a, ()> {
        Local::from_future(self.rec(Event::PrekeyRotated(e.clone())))
    }
}
impl CgkaListener<Local> for SimListener {
    fn on_cgka_op<'a>(&'a self, e: &'a Arc<Signed<CgkaOperation>>) -> Fut<'a, ()> {
        Local::from_future(self.rec(Event::CgkaOperation(e.clone())))
    }
}
impl MembershipListener<Local, SimSigner, T> for SimListener {
    fn on_delegation<'a>(
        &'a self,
        e: &'a Arc<Signed<Delegation<Local, SimSigner, T, Self>>>,
    ) -> Fut<'a, ()> {
        Local::from_future(self.rec(Event::Delegated(e.clone())))
    }
    fn on_revocation<'a>(
        &'a self,
        e: &'a Arc<Signed<Revocation<Local, SimSigner, T, Self>>>,
    ) -> Fut<'a, ()> {
        Local::from_future(self.rec(Event::Revoked(e.clone())))
    }
}

/// What a store read does for a given content ref.
#[derive(Clone, Debug, PartialEq)]
pub enum ReadFault {
    Error,
    Missing,
    /// Flip the byte at this position (modulo length).
    Damage(usize),
    /// Answer with another ref's ciphertext.
    Swap(T),
    Truncate(usize),
}

#[derive(Default, Debug)]
pub struct StoreInner {
    pub data: BTreeMap<T, Arc<EncryptedContent<Vec<u8>, T>>>,
    pub marked: Vec<T>,
    pub reads: u64,
    pub get_faults: BTreeMap<T, ReadFault>,
    /// fail the nth read (index over `reads`)
    pub fail_reads: Vec<u64>,
    pub mark_fail: Vec<T>,
    pub fired: BTreeMap<&'static str, u64>,
    /// remove on mark_decrypted (as the in-memory store does) or keep
    pub remove_on_mark: bool,
    /// keep the data in the library's own in-memory store
    pub mem: Option<MemoryCiphertextStore<T, Vec<u8>>>,
    /// refs that a read answered with nothing, since last cleared
    pub absent: Vec<T>,
}

/// Durable ciphertext storage: survives a simulated crash of the node.
#[derive(Clone, Debug, Default)]
pub struct SimStore(pub Rc<RefCell<StoreInner>>);

#[derive(Debug)]
pub struct SimIoError(pub &'static str);
impl std::fmt::Display for SimIoError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated I/O error: {}", self.0)
    }
}

impl SimStore {
    pub async fn put(&self, e: Arc<EncryptedContent<Vec<u8>, T>>) {
        let mem = self.0.borrow().mem.clone();
        if let Some(m) = mem {
            m.insert(e.clone()).await;
        }
        self.0.borrow_mut().data.insert(e.content_ref, e);
    }
    /// What is really stored under this ref.
    pub async fn really(&self, id: &T) -> Option<Arc<EncryptedContent<Vec<u8>, T>>> {
        let mem = self.0.borrow().mem.clone();
        match mem {
            Some(m) => CiphertextStore::<Local, T, Vec<u8>>::get_ciphertext(&m, id)
                .await
                .expect("infallible"),
            None => self.0.borrow().data.get(id).cloned(),
        }
    }
    pub fn no_faults(&self) {
        let mut s = self.0.borrow_mut();
        s.get_faults.clear();
        s.fail_reads.clear();
        s.mark_fail.clear();
    }
}

impl CiphertextStore<Local, T, Vec<u8>> for SimStore {
    type GetCiphertextError = SimIoError;
    type MarkDecryptedError = SimIoError;

    fn get_ciphertext<'a>(
        &'a self,
        id: &'a T,
    ) -> Fut<'a, Result<Option<Arc<EncryptedContent<Vec<u8>, T>>>, SimIoError>> {
        Local::from_future(async move {
            yield_point().await;
            let orig = self.really(id).await;
            let fault = {
                let mut s = self.0.borrow_mut();
                let n = s.reads;
                s.reads += 1;
                if s.fail_reads.contains(&n) {
                    Some(ReadFault::Error)
                } else {
                    s.get_faults.get(id).cloned()
                }
            };
            let fired = |k: &'static str| *self.0.borrow_mut().fired.entry(k).or_default() += 1;
            let out = match fault {
                None => orig,
                Some(ReadFault::Error) => {
                    fired("store_read_error");
                    return Err(SimIoError("read"));
                }
                Some(ReadFault::Missing) => {
                    fired("store_read_missing");
                    None
                }
                Some(ReadFault::Damage(p)) => {
                    fired("store_read_damaged");
                    orig.map(|o| {
                        let mut c = (*o).clone();
                        if !c.ciphertext.is_empty() {
                            let i = p % c.ciphertext.len();
                            c.ciphertext[i] ^= 0x41;
                        }
                        Arc::new(c)
                    })
                }
                Some(ReadFault::Truncate(p)) => {
                    fired("store_read_short");
                    orig.map(|o| {
                        let mut c = (*o).clone();
                        let l = c.ciphertext.len();
                        c.ciphertext.truncate(if l == 0 { 0 } else { p % l });
                        Arc::new(c)
                    })
                }
                Some(ReadFault::Swap(o)) => {
                    fired("store_read_swapped");
                    self.really(&o).await
                }
            };
            if out.is_none() {
                self.0.borrow_mut().absent.push(*id);
            }
            Ok(out)
        })
    }

    fn get_ciphertext_by_pcs_update<'a>(
        &'a self,
        u: &'a Digest<Signed<CgkaOperation>>,
    ) -> Fut<'a, Result<Vec<Arc<EncryptedContent<Vec<u8>, T>>>, SimIoError>> {
        Local::from_future(async move {
            yield_point().await;
            Ok(self
                .0
                .borrow()
                .data
                .values()
                .filter(|e| e.pcs_update_op_hash == *u)
                .cloned()
                .collect())
        })
    }

    fn mark_decrypted<'a>(&'a self, id: &'a T) -> Fut<'a, Result<(), SimIoError>> {
        Local::from_future(async move {
            yield_point().await;
            let mem = {
                let mut s = self.0.borrow_mut();
                if s.mark_fail.contains(id) {
                    *s.fired.entry("store_mark_error").or_default() += 1;
                    return Err(SimIoError("mark"));
                }
                s.marked.push(*id);
                if s.remove_on_mark {
                    s.data.remove(id);
                }
                s.mem.clone()
            };
            if let Some(m) = mem {
                CiphertextStore::<Local, T, Vec<u8>>::mark_decrypted(&m, id)
                    .await
                    .expect("infallible");
            }
            Ok(())
        })
    }
}
