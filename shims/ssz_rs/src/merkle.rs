use crate::{MerkleizationError, Node};
use sha2::{Digest, Sha256};
use std::sync::OnceLock;

fn zero_hashes() -> &'static [[u8; 32]; 65] {
    static Z: OnceLock<[[u8; 32]; 65]> = OnceLock::new();
    Z.get_or_init(|| {
        let mut z = [[0u8; 32]; 65];
        for i in 1..65 {
            z[i] = pair(&z[i - 1], &z[i - 1]);
        }
        z
    })
}

pub fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}

pub fn pack_bytes(bytes: &[u8]) -> Vec<[u8; 32]> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut n = [0u8; 32];
            n[..c.len()].copy_from_slice(c);
            n
        })
        .collect()
}

/// `merkleize(chunks, limit)`
pub fn merkleize_chunks(chunks: &[[u8; 32]], limit: usize) -> Result<Node, MerkleizationError> {
    if chunks.len() > limit {
        return Err(MerkleizationError::InputExceedsLimit { limit, size: chunks.len() })
    }
    let depth = limit.max(1).next_power_of_two().trailing_zeros() as usize;
    let z = zero_hashes();
    if chunks.is_empty() {
        return Ok(Node(z[depth]))
    }
    let mut layer = chunks.to_vec();
    for zero in z.iter().take(depth) {
        let mut i = 0;
        let mut o = 0;
        while i < layer.len() {
            let r = if i + 1 < layer.len() { layer[i + 1] } else { *zero };
            layer[o] = pair(&layer[i], &r);
            i += 2;
            o += 1;
        }
        layer.truncate(o);
    }
    Ok(Node(layer[0]))
}

pub fn mix_in_length(root: Node, len: usize) -> Node {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(len as u64).to_le_bytes());
    Node(pair(&root.0, &l))
}

pub fn is_valid_merkle_branch(
    leaf: Node,
    branch: &[Node],
    depth: usize,
    index: usize,
    root: Node,
) -> Result<(), MerkleizationError> {
    if branch.len() != depth {
        return Err(MerkleizationError::InvalidProof)
    }
    let mut value = leaf.0;
    for (i, b) in branch.iter().enumerate() {
        value = if (index >> i) & 1 == 1 { pair(&b.0, &value) } else { pair(&value, &b.0) };
    }
    if value == root.0 {
        Ok(())
    } else {
        Err(MerkleizationError::InvalidProof)
    }
}

pub fn log_2(x: usize) -> Option<u32> {
    x.checked_ilog2()
}

pub fn get_subtree_index(generalized_index: usize) -> Result<usize, MerkleizationError> {
    let d = log_2(generalized_index).ok_or(MerkleizationError::InvalidGeneralizedIndex)?;
    Ok(generalized_index - (1 << d))
}

pub fn is_valid_merkle_branch_for_generalized_index(
    leaf: Node,
    branch: &[Node],
    generalized_index: usize,
    root: Node,
) -> Result<(), MerkleizationError> {
    let depth = log_2(generalized_index).ok_or(MerkleizationError::InvalidGeneralizedIndex)?;
    is_valid_merkle_branch(leaf, branch, depth as usize, get_subtree_index(generalized_index)?, root)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Index(usize),
    Field(String),
    Length,
    Selector,
}
impl From<usize> for PathElement {
    fn from(i: usize) -> Self {
        PathElement::Index(i)
    }
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self {
        match s {
            "__len__" => PathElement::Length,
            "__selector__" => PathElement::Selector,
            s => PathElement::Field(s.to_string()),
        }
    }
}
impl From<String> for PathElement {
    fn from(s: String) -> Self {
        s.as_str().into()
    }
}

pub trait GeneralizedIndexable {
    fn chunk_count() -> usize;
    fn item_length() -> usize {
        32
    }
    fn generalized_index(path: &[PathElement]) -> Result<usize, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
    fn compute_generalized_index(
        parent: usize,
        path: &[PathElement],
    ) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            Ok(parent)
        } else {
            Err(MerkleizationError::InvalidPath(path.to_vec()))
        }
    }
}
