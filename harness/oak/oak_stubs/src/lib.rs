//! Stand-ins for the parts of Oak's crates that /repo's runtime uses. They keep Oak's interfaces
//! and behaviour as far as the runtime depends on it: attestation in both directions checked by
//! policies per layer, a handshake whose messages have to arrive in order, session binding, and
//! an encrypted channel that authenticates and refuses replays. The cryptography is a keyed hash
//! whose keys an observer could compute: the checks don't attack it, they only look at how the
//! runtime uses it.

use anyhow::{anyhow, ensure, Result};
use oak_proto_rust::oak::attestation::v1::*;
use oak_proto_rust::oak::session::v1::*;
use prost::Message;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Arc;

pub fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p);
    }
    h.finalize().into()
}

thread_local! {
    static RANDOM: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}

/// Makes the random values of this thread's sessions repeatable.
pub fn seed(seed: u64) {
    RANDOM.with(|r| *r.borrow_mut() = (seed, 0));
}

fn random() -> Vec<u8> {
    RANDOM.with(|r| {
        let mut r = r.borrow_mut();
        r.1 += 1;
        hash(&[b"random", &r.0.to_le_bytes(), &r.1.to_le_bytes()]).to_vec()
    })
}

// oak_time

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant {
    millis: u64,
}

pub const UNIX_EPOCH: Instant = Instant { millis: 0 };

impl Instant {
    pub fn from_unix_millis(millis: impl TryInto<u64>) -> Self {
        Instant { millis: millis.try_into().unwrap_or(0) }
    }
    pub fn into_unix_millis(self) -> u64 {
        self.millis
    }
}

pub trait Clock {
    fn get_time(&self) -> Instant;
}

pub mod clock {
    use super::*;
    pub struct FixedClock {
        instant: Instant,
    }
    impl FixedClock {
        pub fn at_instant(instant: Instant) -> Self {
            Self { instant }
        }
    }
    impl Clock for FixedClock {
        fn get_time(&self) -> Instant {
            self.instant
        }
    }
}

// oak_attestation_types

pub mod attester {
    use super::*;
    pub trait Attester {
        fn quote(&self) -> Result<Evidence>;
    }
}

pub mod endorser {
    use super::*;
    pub trait Endorser {
        fn endorse(&self, evidence: Option<&Evidence>) -> Result<Endorsements>;
    }
}

// oak_restricted_kernel_sdk, oak_session::attestation

pub mod attestation {
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum AttestationType {
        SelfUnidirectional,
        PeerUnidirectional,
        Bidirectional,
        Unattested,
    }

    /// Attests the trusted environment that the checks give this thread.
    pub struct InstanceAttester(Evidence);
    impl InstanceAttester {
        pub fn create() -> Result<Self> {
            environment::get().map(Self).ok_or_else(|| anyhow!("not in a trusted environment"))
        }
    }
    impl attester::Attester for InstanceAttester {
        fn quote(&self) -> Result<Evidence> {
            Ok(self.0.clone())
        }
    }
}

/// The trusted environment of this thread, if any.
pub mod environment {
    use super::*;
    std::thread_local! {
        static EVIDENCE: std::cell::RefCell<Option<Evidence>> = const { std::cell::RefCell::new(None) };
    }
    pub fn get() -> Option<Evidence> {
        EVIDENCE.with(|e| e.borrow().clone())
    }
    pub fn set(evidence: Option<Evidence>) {
        EVIDENCE.with(|e| *e.borrow_mut() = evidence)
    }
}

pub mod crypto {
    use super::*;
    pub struct InstanceSessionBinder(Vec<u8>);
    impl InstanceSessionBinder {
        pub fn create() -> Result<Self> {
            environment::get()
                .map(|e| Self(e.signing_key))
                .ok_or_else(|| anyhow!("not in a trusted environment"))
        }
    }
    impl session_binding::SessionBinder for InstanceSessionBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
            session_binding::sign(&self.0, bound_data)
        }
    }
}

// oak_sdk_containers, oak_sdk_common

pub mod containers {
    use super::*;

    /// Leads to the orchestrator, which signs with the key that is the container's to use.
    #[derive(Clone, Debug)]
    pub struct Channel {
        pub key: Vec<u8>,
    }

    pub struct InstanceSessionBinder(Vec<u8>);
    impl InstanceSessionBinder {
        pub fn create(channel: &Channel) -> Self {
            Self(channel.key.clone())
        }
    }
    impl session_binding::SessionBinder for InstanceSessionBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
            session_binding::sign(&self.0, bound_data)
        }
    }
}

pub mod common {
    use super::*;

    pub struct StaticAttester(Evidence);
    impl StaticAttester {
        pub fn new(evidence: Evidence) -> Self {
            Self(evidence)
        }
    }
    impl attester::Attester for StaticAttester {
        fn quote(&self) -> Result<Evidence> {
            Ok(self.0.clone())
        }
    }
}

// oak_attestation_verification*, oak_dice_attestation_verifier, oak_session::verifier

pub mod verifier {
    use super::*;

    pub trait AttestationVerifier {
        fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> Result<()>;
    }

    pub trait BoundAssertionVerifier {
        fn verify_assertion(&self, content: &[u8]) -> Result<()>;
        fn verify_binding(&self, content: &[u8], bound_data: &[u8], binding: &[u8]) -> Result<()>;
    }
}

/// One measured layer.
pub enum Event<'a> {
    Kernel(&'a [u8]),
    System(&'a [u8]),
    Container(&'a [u8]),
}

pub trait Policy {
    fn verify(&self, event: &Event) -> Result<()>;
}

fn check_binary(expected: &Option<BinaryReferenceValue>, actual: &[u8]) -> Result<()> {
    match expected.as_ref().and_then(|e| e.r#type.as_ref()) {
        Some(binary_reference_value::Type::Skip(_)) => Ok(()),
        Some(binary_reference_value::Type::Digests(d)) if d.digest == actual => Ok(()),
        Some(_) => Err(anyhow!("digest mismatch")),
        None => Err(anyhow!("no reference value")),
    }
}

fn check_kernel(expected: &KernelLayerReferenceValues, actual: &[u8]) -> Result<()> {
    match expected.kernel.as_ref().and_then(|e| e.r#type.as_ref()) {
        Some(kernel_binary_reference_value::Type::Skip(_)) => Ok(()),
        Some(kernel_binary_reference_value::Type::Digests(d)) if d.digest == actual => Ok(()),
        Some(_) => Err(anyhow!("kernel digest mismatch")),
        None => Err(anyhow!("no kernel reference value")),
    }
}

pub struct KernelPolicy(KernelLayerReferenceValues);
impl KernelPolicy {
    pub fn new(values: &KernelLayerReferenceValues) -> Self {
        Self(values.clone())
    }
}
impl Policy for KernelPolicy {
    fn verify(&self, event: &Event) -> Result<()> {
        match event {
            Event::Kernel(d) => check_kernel(&self.0, d),
            _ => Err(anyhow!("not a kernel event")),
        }
    }
}

pub struct SystemPolicy(SystemLayerReferenceValues);
impl SystemPolicy {
    pub fn new(values: &SystemLayerReferenceValues) -> Self {
        Self(values.clone())
    }
}
impl Policy for SystemPolicy {
    fn verify(&self, event: &Event) -> Result<()> {
        match event {
            Event::System(d) => check_binary(&self.0.system_image, d),
            _ => Err(anyhow!("not a system event")),
        }
    }
}

pub struct ContainerPolicy(ContainerLayerReferenceValues);
impl ContainerPolicy {
    pub fn new(values: &ContainerLayerReferenceValues) -> Self {
        Self(values.clone())
    }
}
impl Policy for ContainerPolicy {
    fn verify(&self, event: &Event) -> Result<()> {
        match event {
            Event::Container(d) => check_binary(&self.0.binary, d),
            _ => Err(anyhow!("not a container event")),
        }
    }
}

pub struct FirmwarePolicy(BinaryReferenceValue);
impl FirmwarePolicy {
    pub fn new(values: &BinaryReferenceValue) -> Self {
        Self(values.clone())
    }
}
/// Oak's verifier takes the firmware's policy as a boxed trait object of its own.
pub trait MeasurementPolicy {
    fn verify(&self, measurement: &[u8]) -> Result<()>;
}
impl MeasurementPolicy for FirmwarePolicy {
    fn verify(&self, measurement: &[u8]) -> Result<()> {
        check_binary(&Some(self.0.clone()), measurement)
    }
}

fn check_amd_sev(values: &AmdSevReferenceValues, evidence: &Evidence) -> Result<()> {
    ensure!(evidence.tee() == evidence::Tee::AmdSevSnp, "not an AMD SEV-SNP machine");
    ensure!(evidence.tcb >= values.min_tcb, "the platform is too old");
    Ok(())
}

pub struct AmdSevSnpPolicy(AmdSevReferenceValues);
impl AmdSevSnpPolicy {
    pub fn new(values: &AmdSevReferenceValues) -> Self {
        Self(values.clone())
    }
}

fn check_time(clock: &Arc<dyn Clock>, endorsements: &Endorsements) -> Result<()> {
    ensure!(
        endorsements.valid_until_millis == 0
            || clock.get_time().into_unix_millis() <= endorsements.valid_until_millis,
        "the endorsements have expired"
    );
    Ok(())
}

fn check_events(policies: &[Box<dyn Policy>], evidence: &Evidence) -> Result<()> {
    let events = [
        Event::Kernel(&evidence.kernel),
        Event::System(&evidence.system),
        Event::Container(&evidence.container),
    ];
    ensure!(policies.len() == events.len(), "a policy for each event is needed");
    policies.iter().zip(&events).try_for_each(|(policy, event)| policy.verify(event))
}

pub struct AmdSevSnpDiceAttestationVerifier {
    platform: AmdSevSnpPolicy,
    firmware: Box<dyn MeasurementPolicy>,
    events: Vec<Box<dyn Policy>>,
    clock: Arc<dyn Clock>,
}
impl AmdSevSnpDiceAttestationVerifier {
    pub fn new(
        platform: AmdSevSnpPolicy,
        firmware: Box<dyn MeasurementPolicy>,
        events: Vec<Box<dyn Policy>>,
        clock: Arc<dyn Clock>,
    ) -> Self {
        Self { platform, firmware, events, clock }
    }
}
impl verifier::AttestationVerifier for AmdSevSnpDiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> Result<()> {
        check_time(&self.clock, endorsements)?;
        check_amd_sev(&self.platform.0, evidence)?;
        self.firmware.verify(&evidence.firmware)?;
        check_events(&self.events, evidence)
    }
}

pub struct InsecureAttestationVerifier {
    clock: Arc<dyn Clock>,
    events: Vec<Box<dyn Policy>>,
}
impl InsecureAttestationVerifier {
    pub fn new(clock: Arc<dyn Clock>, events: Vec<Box<dyn Policy>>) -> Self {
        Self { clock, events }
    }
}
impl verifier::AttestationVerifier for InsecureAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> Result<()> {
        check_time(&self.clock, endorsements)?;
        check_events(&self.events, evidence)
    }
}

pub struct DiceAttestationVerifier {
    values: ReferenceValues,
    clock: Arc<dyn Clock>,
}
impl DiceAttestationVerifier {
    pub fn create(values: ReferenceValues, clock: Arc<dyn Clock>) -> Self {
        Self { values, clock }
    }
}

fn check_root(values: Option<&RootLayerReferenceValues>, evidence: &Evidence) -> Result<()> {
    let values = values.ok_or(anyhow!("no root layer reference values"))?;
    match evidence.tee() {
        evidence::Tee::AmdSevSnp => {
            let amd = values.amd_sev.as_ref().ok_or(anyhow!("no AMD SEV-SNP reference values"))?;
            check_amd_sev(amd, evidence)?;
            check_binary(&amd.stage0, &evidence.firmware)
        }
        _ => {
            ensure!(values.insecure.is_some(), "the machine is not trusted");
            Ok(())
        }
    }
}

impl verifier::AttestationVerifier for DiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> Result<()> {
        check_time(&self.clock, endorsements)?;
        match &self.values.r#type {
            Some(reference_values::Type::OakRestrictedKernel(v)) => {
                check_root(v.root_layer.as_ref(), evidence)?;
                check_kernel(
                    v.kernel_layer.as_ref().ok_or(anyhow!("no kernel layer reference values"))?,
                    &evidence.kernel,
                )?;
                let app = v.application_layer.as_ref().ok_or(anyhow!("no application layer"))?;
                check_binary(&app.binary, &evidence.application)
            }
            Some(reference_values::Type::OakContainers(v)) => {
                check_root(v.root_layer.as_ref(), evidence)?;
                check_kernel(
                    v.kernel_layer.as_ref().ok_or(anyhow!("no kernel layer reference values"))?,
                    &evidence.kernel,
                )?;
                let system = v.system_layer.as_ref().ok_or(anyhow!("no system layer"))?;
                check_binary(&system.system_image, &evidence.system)?;
                let container = v.container_layer.as_ref().ok_or(anyhow!("no container layer"))?;
                check_binary(&container.binary, &evidence.container)
            }
            None => Err(anyhow!("no reference values")),
        }
    }
}

// oak_crypto

pub mod encryptor {
    use super::*;

    pub struct Payload {
        pub message: Vec<u8>,
        pub nonce: Option<Vec<u8>>,
        pub aad: Option<Vec<u8>>,
    }

    pub trait Encryptor {
        fn encrypt(&mut self, plaintext: Payload) -> Result<Payload>;
        fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload>;
    }
}

pub mod noise_handshake {
    pub const SYMMETRIC_KEY_LEN: usize = 32;

    pub struct OrderedCrypter {
        pub(crate) read_key: [u8; SYMMETRIC_KEY_LEN],
        pub(crate) write_key: [u8; SYMMETRIC_KEY_LEN],
    }

    impl OrderedCrypter {
        pub fn new(read_key: &[u8; SYMMETRIC_KEY_LEN], write_key: &[u8; SYMMETRIC_KEY_LEN]) -> Self {
            Self { read_key: *read_key, write_key: *write_key }
        }
    }
}

fn crypt(key: &[u8], nonce: &[u8], text: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(text.len());
    for (i, block) in text.chunks(32).enumerate() {
        let pad = hash(&[b"pad", key, nonce, &(i as u64).to_le_bytes()]);
        out.extend(block.iter().zip(pad).map(|(a, b)| a ^ b));
    }
    out
}

fn seal(key: &[u8], nonce: u32, text: &[u8]) -> Vec<u8> {
    let nonce = nonce.to_be_bytes();
    let mut out = crypt(key, &nonce, text);
    let tag = hash(&[b"tag", key, &nonce, &out]);
    out.extend_from_slice(&tag[..16]);
    out
}

fn unseal(key: &[u8], nonce: u32, sealed: &[u8]) -> Result<Vec<u8>> {
    let nonce = nonce.to_be_bytes();
    ensure!(sealed.len() >= 16, "too short");
    let (text, tag) = sealed.split_at(sealed.len() - 16);
    ensure!(hash(&[b"tag", key, &nonce, text])[..16] == *tag, "decryption failed");
    Ok(crypt(key, &nonce, text))
}

pub mod encryptors {
    use super::{encryptor::*, noise_handshake::OrderedCrypter, *};

    /// Each message needs the nonce following that of the one before.
    pub struct OrderedChannelEncryptor {
        crypter: OrderedCrypter,
        read: u32,
        write: u32,
    }

    impl TryFrom<OrderedCrypter> for OrderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from(crypter: OrderedCrypter) -> Result<Self> {
            Ok(Self { crypter, read: 0, write: 0 })
        }
    }

    impl Encryptor for OrderedChannelEncryptor {
        fn encrypt(&mut self, plaintext: Payload) -> Result<Payload> {
            let message = seal(&self.crypter.write_key, self.write, &plaintext.message);
            self.write += 1;
            Ok(Payload { message, nonce: None, aad: None })
        }
        fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload> {
            let message = unseal(&self.crypter.read_key, self.read, &ciphertext.message)?;
            self.read += 1;
            Ok(Payload { message, nonce: None, aad: None })
        }
    }

    /// Messages less than `window` behind the furthest one seen are accepted, once.
    pub struct UnorderedChannelEncryptor {
        crypter: OrderedCrypter,
        window: u32,
        write: u32,
        furthest: u32,
        seen: BTreeSet<u32>,
    }

    impl TryFrom<(OrderedCrypter, u32)> for UnorderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from((crypter, window): (OrderedCrypter, u32)) -> Result<Self> {
            Ok(Self { crypter, window, write: 0, furthest: 0, seen: BTreeSet::new() })
        }
    }

    impl Encryptor for UnorderedChannelEncryptor {
        fn encrypt(&mut self, plaintext: Payload) -> Result<Payload> {
            let nonce = self.write;
            self.write = self.write.checked_add(1).ok_or(anyhow!("out of nonces"))?;
            Ok(Payload {
                message: seal(&self.crypter.write_key, nonce, &plaintext.message),
                // As Noise's nonces: 12 bytes with the counter at the end.
                nonce: Some([vec![0; 8], nonce.to_be_bytes().to_vec()].concat()),
                aad: None,
            })
        }
        fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload> {
            let nonce = ciphertext.nonce.ok_or(anyhow!("no nonce"))?;
            ensure!(nonce.len() == 12 && nonce[..8] == [0; 8], "malformed nonce");
            let nonce = u32::from_be_bytes(nonce[8..].try_into().unwrap());
            ensure!(
                self.seen.is_empty() || nonce > self.furthest || self.furthest - nonce < self.window,
                "too late"
            );
            ensure!(!self.seen.contains(&nonce), "replayed");
            let message = unseal(&self.crypter.read_key, nonce, &ciphertext.message)?;
            self.furthest = self.furthest.max(nonce);
            self.seen.insert(nonce);
            let low = self.furthest.saturating_sub(self.window);
            self.seen = self.seen.split_off(&low);
            Ok(Payload { message, nonce: None, aad: None })
        }
    }
}

// oak_session

pub mod aggregators {
    pub trait AssertionAttestationAggregator {
        /// Whether the peer passes, given the outcome of each verifier.
        fn passes(&self, outcomes: &[bool]) -> bool;
    }
    pub struct PassThrough {}
    impl AssertionAttestationAggregator for PassThrough {
        fn passes(&self, outcomes: &[bool]) -> bool {
            matches!(outcomes, [true])
        }
    }
}

pub mod handshake {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum HandshakeType {
        NoiseNN,
        NoiseKK,
        NoiseNK,
    }
}

pub mod generator {
    use super::*;
    pub trait BindableAssertionGenerator {
        fn generate(&self) -> Result<Vec<u8>>;
        fn bind(&self, bound_data: &[u8]) -> Vec<u8>;
    }
}

pub mod key_extractor {
    use super::*;
    pub trait KeyExtractor {
        fn extract(&self, evidence: &Evidence) -> Vec<u8>;
    }
    pub struct DefaultBindingKeyExtractor {}
    impl KeyExtractor for DefaultBindingKeyExtractor {
        fn extract(&self, evidence: &Evidence) -> Vec<u8> {
            evidence.binding_key.clone()
        }
    }
    pub struct DefaultSigningKeyExtractor {}
    impl KeyExtractor for DefaultSigningKeyExtractor {
        fn extract(&self, evidence: &Evidence) -> Vec<u8> {
            evidence.signing_key.clone()
        }
    }
}

pub mod session_binding {
    use super::*;
    pub trait SessionBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8>;
    }

    pub struct SignatureBindingVerifierProvider {
        pub(crate) key_extractor: Arc<dyn key_extractor::KeyExtractor>,
    }
    impl SignatureBindingVerifierProvider {
        pub fn new(key_extractor: Arc<dyn key_extractor::KeyExtractor>) -> Self {
            Self { key_extractor }
        }
    }

    /// The signature of the stand-ins.
    pub fn sign(key: &[u8], data: &[u8]) -> Vec<u8> {
        hash(&[b"signature", key, data]).to_vec()
    }
}

pub struct EndorsedEvidenceBindableAssertionGenerator {
    attester: Arc<dyn attester::Attester>,
    endorser: Arc<dyn endorser::Endorser>,
    binder: Arc<dyn session_binding::SessionBinder>,
}

impl EndorsedEvidenceBindableAssertionGenerator {
    pub fn new(
        attester: Arc<dyn attester::Attester>,
        endorser: Arc<dyn endorser::Endorser>,
        binder: Arc<dyn session_binding::SessionBinder>,
    ) -> Self {
        Self { attester, endorser, binder }
    }
}

impl generator::BindableAssertionGenerator for EndorsedEvidenceBindableAssertionGenerator {
    fn generate(&self) -> Result<Vec<u8>> {
        let evidence = self.attester.quote()?;
        let endorsements = self.endorser.endorse(Some(&evidence))?;
        let mut out = evidence.encode_length_delimited_to_vec();
        out.extend(endorsements.encode_length_delimited_to_vec());
        Ok(out)
    }
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        self.binder.bind(bound_data)
    }
}

pub struct EndorsedEvidenceBoundAssertionVerifier {
    verifier: Arc<dyn verifier::AttestationVerifier>,
    binding: Arc<session_binding::SignatureBindingVerifierProvider>,
}

impl EndorsedEvidenceBoundAssertionVerifier {
    pub fn new(
        verifier: Arc<dyn verifier::AttestationVerifier>,
        binding: Arc<session_binding::SignatureBindingVerifierProvider>,
    ) -> Self {
        Self { verifier, binding }
    }
}

/// The evidence and endorsements in an assertion.
pub fn endorsed_evidence(mut content: &[u8]) -> Result<(Evidence, Endorsements)> {
    let evidence = Evidence::decode_length_delimited(&mut content)?;
    let endorsements = Endorsements::decode_length_delimited(&mut content)?;
    Ok((evidence, endorsements))
}

impl verifier::BoundAssertionVerifier for EndorsedEvidenceBoundAssertionVerifier {
    fn verify_assertion(&self, content: &[u8]) -> Result<()> {
        let (evidence, endorsements) = endorsed_evidence(content)?;
        self.verifier.verify(&evidence, &endorsements)
    }
    fn verify_binding(&self, content: &[u8], bound_data: &[u8], binding: &[u8]) -> Result<()> {
        let (evidence, _) = endorsed_evidence(content)?;
        let key = self.binding.key_extractor.extract(&evidence);
        ensure!(session_binding::sign(&key, bound_data) == binding, "the session is not bound");
        Ok(())
    }
}

pub mod config {
    use super::{
        aggregators::*, attestation::AttestationType, encryptor::Encryptor, generator::*,
        handshake::HandshakeType, noise_handshake::OrderedCrypter, verifier::*, *,
    };

    pub trait EncryptorProvider {
        fn provide_encryptor(&self, crypter: OrderedCrypter) -> Result<Box<dyn Encryptor>, anyhow::Error>;
    }

    pub struct SessionConfig {
        pub(crate) attestation_type: AttestationType,
        pub(crate) generators: BTreeMap<String, Box<dyn BindableAssertionGenerator>>,
        pub(crate) verifiers: BTreeMap<String, Box<dyn BoundAssertionVerifier>>,
        pub(crate) aggregator: Box<dyn AssertionAttestationAggregator>,
        pub(crate) encryptors: Option<Box<dyn EncryptorProvider>>,
    }

    pub struct SessionConfigBuilder {
        config: SessionConfig,
    }

    impl SessionConfig {
        pub fn builder(attestation_type: AttestationType, _: HandshakeType) -> SessionConfigBuilder {
            SessionConfigBuilder {
                config: SessionConfig {
                    attestation_type,
                    generators: BTreeMap::new(),
                    verifiers: BTreeMap::new(),
                    aggregator: Box::new(PassThrough {}),
                    encryptors: None,
                },
            }
        }
    }

    impl SessionConfigBuilder {
        pub fn add_self_assertion_generator(
            mut self,
            id: String,
            generator: Box<dyn BindableAssertionGenerator>,
        ) -> Self {
            self.config.generators.insert(id, generator);
            self
        }
        pub fn add_peer_assertion_verifier(
            mut self,
            id: String,
            verifier: Box<dyn BoundAssertionVerifier>,
        ) -> Self {
            self.config.verifiers.insert(id, verifier);
            self
        }
        pub fn set_assertion_attestation_aggregator(
            mut self,
            aggregator: Box<dyn AssertionAttestationAggregator>,
        ) -> Self {
            self.config.aggregator = aggregator;
            self
        }
        pub fn set_encryption_provider(mut self, provider: Box<dyn EncryptorProvider>) -> Self {
            self.config.encryptors = Some(provider);
            self
        }
        pub fn build(self) -> SessionConfig {
            self.config
        }
    }
}

pub trait ProtocolEngine<I, O> {
    fn get_outgoing_message(&mut self) -> Result<Option<O>>;
    fn put_incoming_message(&mut self, incoming_message: I) -> Result<Option<()>>;
}

pub mod session {
    use super::{attestation::AttestationType, config::*, encryptor::*, noise_handshake::OrderedCrypter, *};

    pub trait Session {
        fn is_open(&self) -> bool;
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()>;
        fn read(&mut self) -> Result<Option<PlaintextMessage>>;
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum Step {
        SendAttest,
        AwaitAttest,
        SendHandshake,
        AwaitHandshake,
        SendBinding,
        AwaitBinding,
        Open,
        Failed,
    }

    struct Core {
        config: SessionConfig,
        step: Step,
        nonces: [Vec<u8>; 2],
        keys: [Vec<u8>; 2],
        peer: BTreeMap<String, Vec<u8>>,
        encryptor: Option<Box<dyn Encryptor>>,
        outgoing: VecDeque<EncryptedMessage>,
        incoming: VecDeque<EncryptedMessage>,
    }

    const CLIENT: usize = 0;
    const SERVER: usize = 1;

    impl Core {
        fn new(config: SessionConfig, step: Step) -> Self {
            Core {
                config,
                step,
                nonces: Default::default(),
                keys: Default::default(),
                peer: BTreeMap::new(),
                encryptor: None,
                outgoing: VecDeque::new(),
                incoming: VecDeque::new(),
            }
        }

        fn attests(&self) -> bool {
            use AttestationType::*;
            matches!(self.config.attestation_type, SelfUnidirectional | Bidirectional)
        }

        fn verifies(&self) -> bool {
            use AttestationType::*;
            matches!(self.config.attestation_type, PeerUnidirectional | Bidirectional)
        }

        fn assertions(&self) -> Result<BTreeMap<String, Assertion>> {
            if !self.attests() {
                return Ok(BTreeMap::new());
            }
            self.config
                .generators
                .iter()
                .map(|(id, g)| Ok((id.clone(), Assertion { content: g.generate()? })))
                .collect()
        }

        fn check_assertions(&mut self, assertions: BTreeMap<String, Assertion>) -> Result<()> {
            if !self.verifies() {
                return Ok(());
            }
            let mut outcomes = Vec::new();
            for (id, verifier) in &self.config.verifiers {
                if let Some(a) = assertions.get(id) {
                    outcomes.push(verifier.verify_assertion(&a.content).is_ok());
                    self.peer.insert(id.clone(), a.content.clone());
                }
            }
            ensure!(self.config.aggregator.passes(&outcomes), "the peer's attestation failed");
            Ok(())
        }

        fn transcript(&self) -> [u8; 32] {
            hash(&[&self.nonces[0], &self.nonces[1], &self.keys[0], &self.keys[1]])
        }

        fn bindings(&self) -> BTreeMap<String, SessionBinding> {
            if !self.attests() {
                return BTreeMap::new();
            }
            let transcript = self.transcript();
            self.config
                .generators
                .iter()
                .map(|(id, g)| (id.clone(), SessionBinding { binding: g.bind(&transcript) }))
                .collect()
        }

        fn check_bindings(&self, bindings: &BTreeMap<String, SessionBinding>) -> Result<()> {
            if !self.verifies() {
                return Ok(());
            }
            let transcript = self.transcript();
            for (id, verifier) in &self.config.verifiers {
                let content = self.peer.get(id).ok_or(anyhow!("no assertion"))?;
                let binding = bindings.get(id).ok_or(anyhow!("no binding"))?;
                verifier.verify_binding(content, &transcript, &binding.binding)?;
            }
            Ok(())
        }

        fn open(&mut self, own: usize) -> Result<()> {
            let secret = self.transcript();
            let read = hash(&[b"key", &secret, &[1 - own as u8]]);
            let write = hash(&[b"key", &secret, &[own as u8]]);
            let crypter = OrderedCrypter::new(&read, &write);
            self.encryptor = Some(match &self.config.encryptors {
                Some(provider) => provider.provide_encryptor(crypter)?,
                None => Box::new(encryptors::OrderedChannelEncryptor::try_from(crypter)?),
            });
            Ok(())
        }

        fn fail<T>(&mut self, result: Result<T>) -> Result<T> {
            if result.is_err() && self.step != Step::Open {
                self.step = Step::Failed;
            }
            result
        }

        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
            ensure!(self.step == Step::Open, "the session is not open");
            let payload = self.encryptor.as_mut().unwrap().encrypt(Payload {
                message: plaintext.plaintext,
                nonce: None,
                aad: None,
            })?;
            self.outgoing.push_back(EncryptedMessage {
                ciphertext: payload.message,
                nonce: payload.nonce,
                associated_data: payload.aad,
            });
            Ok(())
        }

        fn read(&mut self) -> Result<Option<PlaintextMessage>> {
            ensure!(self.step == Step::Open, "the session is not open");
            let Some(m) = self.incoming.pop_front() else { return Ok(None) };
            let payload = self.encryptor.as_mut().unwrap().decrypt(Payload {
                message: m.ciphertext,
                nonce: m.nonce,
                aad: m.associated_data,
            })?;
            Ok(Some(PlaintextMessage { plaintext: payload.message }))
        }
    }

    pub struct ClientSession {
        core: Core,
    }

    impl ClientSession {
        pub fn create(config: SessionConfig) -> Result<Self> {
            Ok(Self { core: Core::new(config, Step::SendAttest) })
        }

        fn outgoing(&mut self) -> Result<Option<session_request::Request>> {
            let c = &mut self.core;
            Ok(match c.step {
                Step::SendAttest => {
                    let assertions = c.assertions()?;
                    c.nonces[CLIENT] = random();
                    c.step = Step::AwaitAttest;
                    Some(session_request::Request::AttestRequest(AttestRequest {
                        assertions,
                        nonce: c.nonces[CLIENT].clone(),
                    }))
                }
                Step::SendHandshake => {
                    c.keys[CLIENT] = random();
                    c.step = Step::AwaitHandshake;
                    Some(session_request::Request::HandshakeRequest(HandshakeRequest {
                        ephemeral_public_key: c.keys[CLIENT].clone(),
                        assertion_bindings: BTreeMap::new(),
                    }))
                }
                Step::SendBinding => {
                    let assertion_bindings = c.bindings();
                    c.step = Step::Open;
                    Some(session_request::Request::HandshakeRequest(HandshakeRequest {
                        ephemeral_public_key: Vec::new(),
                        assertion_bindings,
                    }))
                }
                Step::Open => c.outgoing.pop_front().map(session_request::Request::EncryptedMessage),
                Step::Failed => return Err(anyhow!("the session has failed")),
                _ => None,
            })
        }

        fn incoming(&mut self, message: SessionResponse) -> Result<Option<()>> {
            let c = &mut self.core;
            match (c.step, message.response) {
                (Step::AwaitAttest, Some(session_response::Response::AttestResponse(m))) => {
                    c.check_assertions(m.assertions)?;
                    c.nonces[SERVER] = m.nonce;
                    c.step = Step::SendHandshake;
                }
                (Step::AwaitHandshake, Some(session_response::Response::HandshakeResponse(m))) => {
                    c.keys[SERVER] = m.ephemeral_public_key;
                    c.check_bindings(&m.assertion_bindings)?;
                    c.open(CLIENT)?;
                    c.step = if c.attests() { Step::SendBinding } else { Step::Open };
                }
                (Step::Open, Some(session_response::Response::EncryptedMessage(m))) => {
                    c.incoming.push_back(m);
                }
                _ => return Err(anyhow!("unexpected message")),
            }
            Ok(Some(()))
        }
    }

    impl ProtocolEngine<SessionResponse, SessionRequest> for ClientSession {
        fn get_outgoing_message(&mut self) -> Result<Option<SessionRequest>> {
            let result = self.outgoing();
            let request = self.core.fail(result)?;
            Ok(request.map(|r| SessionRequest { request: Some(r) }))
        }
        fn put_incoming_message(&mut self, incoming_message: SessionResponse) -> Result<Option<()>> {
            let result = self.incoming(incoming_message);
            self.core.fail(result)
        }
    }

    impl Session for ClientSession {
        fn is_open(&self) -> bool {
            self.core.step == Step::Open
        }
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
            self.core.write(plaintext)
        }
        fn read(&mut self) -> Result<Option<PlaintextMessage>> {
            self.core.read()
        }
    }

    pub struct ServerSession {
        core: Core,
    }

    impl ServerSession {
        pub fn create(config: SessionConfig) -> Result<Self> {
            Ok(Self { core: Core::new(config, Step::AwaitAttest) })
        }

        fn outgoing(&mut self) -> Result<Option<session_response::Response>> {
            let c = &mut self.core;
            Ok(match c.step {
                Step::SendAttest => {
                    let assertions = c.assertions()?;
                    c.nonces[SERVER] = random();
                    c.step = Step::AwaitHandshake;
                    Some(session_response::Response::AttestResponse(AttestResponse {
                        assertions,
                        nonce: c.nonces[SERVER].clone(),
                    }))
                }
                Step::SendHandshake => {
                    c.keys[SERVER] = random();
                    let assertion_bindings = c.bindings();
                    c.open(SERVER)?;
                    c.step = if c.verifies() { Step::AwaitBinding } else { Step::Open };
                    Some(session_response::Response::HandshakeResponse(HandshakeResponse {
                        ephemeral_public_key: c.keys[SERVER].clone(),
                        assertion_bindings,
                    }))
                }
                Step::Open => c.outgoing.pop_front().map(session_response::Response::EncryptedMessage),
                Step::Failed => return Err(anyhow!("the session has failed")),
                _ => None,
            })
        }

        fn incoming(&mut self, message: SessionRequest) -> Result<Option<()>> {
            let c = &mut self.core;
            match (c.step, message.request) {
                (Step::AwaitAttest, Some(session_request::Request::AttestRequest(m))) => {
                    c.check_assertions(m.assertions)?;
                    c.nonces[CLIENT] = m.nonce;
                    c.step = Step::SendAttest;
                }
                (Step::AwaitHandshake, Some(session_request::Request::HandshakeRequest(m))) => {
                    c.keys[CLIENT] = m.ephemeral_public_key;
                    c.step = Step::SendHandshake;
                }
                (Step::AwaitBinding, Some(session_request::Request::HandshakeRequest(m))) => {
                    c.check_bindings(&m.assertion_bindings)?;
                    c.step = Step::Open;
                }
                (Step::Open, Some(session_request::Request::EncryptedMessage(m))) => {
                    c.incoming.push_back(m);
                }
                _ => return Err(anyhow!("unexpected message")),
            }
            Ok(Some(()))
        }
    }

    impl ProtocolEngine<SessionRequest, SessionResponse> for ServerSession {
        fn get_outgoing_message(&mut self) -> Result<Option<SessionResponse>> {
            let result = self.outgoing();
            let response = self.core.fail(result)?;
            Ok(response.map(|r| SessionResponse { response: Some(r) }))
        }
        fn put_incoming_message(&mut self, incoming_message: SessionRequest) -> Result<Option<()>> {
            let result = self.incoming(incoming_message);
            self.core.fail(result)
        }
    }

    impl Session for ServerSession {
        fn is_open(&self) -> bool {
            self.core.step == Step::Open
        }
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
            self.core.write(plaintext)
        }
        fn read(&mut self) -> Result<Option<PlaintextMessage>> {
            self.core.read()
        }
    }
}
