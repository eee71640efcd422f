use crate::PathElement;
use thiserror::Error;

#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum InstanceError {
    #[error("required exactly {required} elements, {provided} provided")]
    Exact { required: usize, provided: usize },
    #[error("at most {bound} elements, {provided} provided")]
    Bounded { bound: usize, provided: usize },
}

#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum SerializeError {
    #[error("encoding too long: {0}")]
    MaximumEncodedLengthExceeded(usize),
    #[error("invalid instance: {0}")]
    InvalidInstance(#[from] InstanceError),
}

#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    #[error("expected at least {expected} bytes, {provided} provided")]
    ExpectedFurtherInput { provided: usize, expected: usize },
    #[error("{provided} bytes provided where {expected} expected")]
    AdditionalInput { provided: usize, expected: usize },
    #[error("invalid byte {0}")]
    InvalidByte(u8),
    #[error("invalid offset {0}")]
    InvalidOffset(usize),
    #[error("offsets not increasing: {start} {end}")]
    OffsetNotIncreasing { start: usize, end: usize },
    #[error("invalid instance: {0}")]
    InvalidInstance(#[from] InstanceError),
    #[error("io")]
    IOError,
}

#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    #[error("serialization: {0}")]
    SerializationError(#[from] SerializeError),
    #[error("limit {limit} exceeded by {size}")]
    InputExceedsLimit { limit: usize, size: usize },
    #[error("invalid path {0:?}")]
    InvalidPath(Vec<PathElement>),
    #[error("invalid generalized index")]
    InvalidGeneralizedIndex,
    #[error("invalid inner index")]
    InvalidInnerIndex,
    #[error("invalid depth")]
    InvalidDepth,
    #[error("invalid proof")]
    InvalidProof,
    #[error("invalid instance: {0}")]
    InvalidInstance(#[from] InstanceError),
}

#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum SimpleSerializeError {
    #[error("could not serialize: {0}")]
    Serialize(#[from] SerializeError),
    #[error("could not deserialize: {0}")]
    Deserialize(#[from] DeserializeError),
    #[error("merkleization: {0}")]
    Merkleization(#[from] MerkleizationError),
    #[error("invalid instance: {0}")]
    Instance(#[from] InstanceError),
}
