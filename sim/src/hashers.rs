//! Hashers the simulated trees run with, and the independent hash functions of the model.
use sha2::Digest;

/// What the harness needs from a hasher. `Sim` maps 32-byte inputs to themselves, so that a
/// scenario can place keys at arbitrary positions (every shared-prefix length) and still have
/// preimages; all other inputs (in particular the 77- and 80-byte node encodings) are SHA-256.
pub trait Hs: jmt::SimpleHasher + Clone + std::fmt::Debug + 'static {
    const SIM: bool;
    fn h(data: &[u8]) -> [u8; 32];
}

pub fn sha(data: &[u8]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    Digest::update(&mut h, data);
    h.finalize().into()
}

impl Hs for sha2::Sha256 {
    const SIM: bool = false;
    fn h(data: &[u8]) -> [u8; 32] {
        sha(data)
    }
}

#[derive(Clone, Debug)]
pub struct SimHasher {
    buf: Vec<u8>,
}

impl jmt::SimpleHasher for SimHasher {
    fn new() -> Self {
        SimHasher {
            buf: Vec::with_capacity(96),
        }
    }
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data)
    }
    fn finalize(self) -> [u8; 32] {
        SimHasher::h(&self.buf)
    }
}

impl Hs for SimHasher {
    const SIM: bool = true;
    fn h(data: &[u8]) -> [u8; 32] {
        if data.len() == 32 {
            let mut a = [0u8; 32];
            a.copy_from_slice(data);
            a
        } else {
            sha(data)
        }
    }
}

/// Host functions for the ICS23 verifier: its SHA-256 is the hasher under simulation.
pub struct IcsHost<H>(std::marker::PhantomData<H>);
impl<H: Hs> ics23::HostFunctionsProvider for IcsHost<H> {
    fn sha2_256(m: &[u8]) -> [u8; 32] {
        H::h(m)
    }
    fn sha2_512(m: &[u8]) -> [u8; 64] {
        let mut h = sha2::Sha512::new();
        Digest::update(&mut h, m);
        let r = h.finalize();
        let mut o = [0u8; 64];
        o.copy_from_slice(&r);
        o
    }
    fn sha2_512_truncated(m: &[u8]) -> [u8; 32] {
        let r = Self::sha2_512(m);
        let mut o = [0u8; 32];
        o.copy_from_slice(&r[..32]);
        o
    }
    fn keccak_256(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
    fn ripemd160(_: &[u8]) -> [u8; 20] {
        [0; 20]
    }
    fn blake2b_512(_: &[u8]) -> [u8; 64] {
        [0; 64]
    }
    fn blake2s_256(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
    fn blake3(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
}
