use crate::{merkle::*, *};
use std::{
    fmt,
    ops::{Deref, DerefMut},
};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vector<T, const N: usize>(Vec<T>);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct List<T, const N: usize>(Vec<T>);

macro_rules! common {
    ($name:ident) => {
        impl<T, const N: usize> Deref for $name<T, N> {
            type Target = Vec<T>;
            fn deref(&self) -> &Vec<T> {
                &self.0
            }
        }
        impl<T, const N: usize> DerefMut for $name<T, N> {
            fn deref_mut(&mut self) -> &mut Vec<T> {
                &mut self.0
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $name<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.0
            }
        }
        impl<T: fmt::Debug, const N: usize> fmt::Debug for $name<T, N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_list().entries(self.0.iter()).finish()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $name<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a mut $name<T, N> {
            type Item = &'a mut T;
            type IntoIter = std::slice::IterMut<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter_mut()
            }
        }
        impl<T, const N: usize> IntoIterator for $name<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $name<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_seq(self.0.iter())
            }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de>
            for $name<T, N>
        {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v = Vec::<T>::deserialize(d)?;
                Self::try_from(v).map_err(|(_, e)| serde::de::Error::custom(e))
            }
        }
        impl<T, const N: usize> TryFrom<Vec<T>> for $name<T, N> {
            type Error = (Vec<T>, SimpleSerializeError);
            fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
                match Self::check(v.len()) {
                    Ok(()) => Ok(Self(v)),
                    Err(e) => Err((v, e.into())),
                }
            }
        }
        impl<T: Clone, const N: usize> TryFrom<&[T]> for $name<T, N> {
            type Error = SimpleSerializeError;
            fn try_from(v: &[T]) -> Result<Self, Self::Error> {
                v.to_vec().try_into().map_err(|(_, e)| e)
            }
        }
    };
}
common!(Vector);
common!(List);

impl<T, const N: usize> Vector<T, N> {
    fn check(n: usize) -> Result<(), InstanceError> {
        if n == N {
            Ok(())
        } else {
            Err(InstanceError::Exact { required: N, provided: n })
        }
    }
}
impl<T, const N: usize> List<T, N> {
    fn check(n: usize) -> Result<(), InstanceError> {
        if n <= N {
            Ok(())
        } else {
            Err(InstanceError::Bounded { bound: N, provided: n })
        }
    }
}
impl<T: Default, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Self((0..N).map(|_| T::default()).collect())
    }
}
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self(vec![])
    }
}

fn ser_items<T: Serialize>(items: &[T], buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
    if !T::is_variable_size() {
        let s = buffer.len();
        for i in items {
            i.serialize(buffer)?;
        }
        return Ok(buffer.len() - s)
    }
    let mut c = crate::__internal::Composer::default();
    for i in items {
        c.push(i)?;
    }
    c.finish(buffer)
}

fn de_items<T: Deserialize>(e: &[u8], exact: Option<usize>) -> Result<Vec<T>, DeserializeError> {
    if !T::is_variable_size() {
        let s = T::size_hint();
        if e.len() % s != 0 {
            return Err(DeserializeError::AdditionalInput {
                provided: e.len(),
                expected: e.len() / s * s,
            })
        }
        return e.chunks(s).map(T::deserialize).collect()
    }
    if e.is_empty() {
        return Ok(vec![])
    }
    if e.len() < 4 {
        return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: 4 })
    }
    let first = u32::from_le_bytes(e[..4].try_into().unwrap()) as usize;
    if first == 0 || first % 4 != 0 || first > e.len() {
        return Err(DeserializeError::InvalidOffset(first))
    }
    let n = first / 4;
    if let Some(k) = exact {
        if k != n {
            return Err(InstanceError::Exact { required: k, provided: n }.into())
        }
    }
    crate::__internal::split(e, &vec![(true, 0); n])?.into_iter().map(T::deserialize).collect()
}

fn chunks_of<T: Serialize + HashTreeRoot>(items: &[T]) -> Result<Vec<[u8; 32]>, MerkleizationError> {
    if T::is_composite_type() {
        items.iter().map(|i| Ok(i.hash_tree_root()?.0)).collect()
    } else {
        let mut b = vec![];
        for i in items {
            i.serialize(&mut b)?;
        }
        Ok(pack_bytes(&b))
    }
}

fn chunk_limit<T: Serializable + HashTreeRoot>(n: usize) -> usize {
    if T::is_composite_type() {
        n
    } else {
        (n * T::size_hint()).div_ceil(32)
    }
}

impl<T: Serializable, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        if T::is_variable_size() {
            0
        } else {
            N * T::size_hint()
        }
    }
}
impl<T: Serialize, const N: usize> Serialize for Vector<T, N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        Self::check(self.len())?;
        ser_items(&self.0, buffer)
    }
}
impl<T: Deserialize, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() {
            crate::scalar::exact(e, N * T::size_hint())?;
        }
        let v = de_items(e, Some(N))?;
        Self::check(v.len())?;
        Ok(Self(v))
    }
}
impl<T: Serialize + HashTreeRoot, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Self::check(self.len())?;
        merkleize_chunks(&chunks_of(&self.0)?, chunk_limit::<T>(N))
    }
}
impl<T: Serializable, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: Serialize, const N: usize> Serialize for List<T, N> {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        Self::check(self.len())?;
        ser_items(&self.0, buffer)
    }
}
impl<T: Deserialize, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v = de_items(e, None)?;
        Self::check(v.len())?;
        Ok(Self(v))
    }
}
impl<T: Serialize + HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Self::check(self.len())?;
        Ok(mix_in_length(
            merkleize_chunks(&chunks_of(&self.0)?, chunk_limit::<T>(N))?,
            self.len(),
        ))
    }
}
fn item_index<T: GeneralizedIndexable>(
    base: usize,
    limit: usize,
    per_chunk_item: usize,
    i: usize,
    rest: &[PathElement],
) -> Result<usize, MerkleizationError> {
    let chunk = i * per_chunk_item / 32;
    T::compute_generalized_index(base * limit.max(1).next_power_of_two() + chunk, rest)
}
impl<T: Serializable + HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable
    for Vector<T, N>
{
    fn chunk_count() -> usize {
        chunk_limit::<T>(N)
    }
    fn compute_generalized_index(
        parent: usize,
        path: &[PathElement],
    ) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Index(i), rest)) if *i < N => {
                item_index::<T>(parent, chunk_limit::<T>(N), T::item_length(), *i, rest)
            }
            _ => Err(MerkleizationError::InvalidPath(path.to_vec())),
        }
    }
}
impl<T: Serializable + HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable
    for List<T, N>
{
    fn chunk_count() -> usize {
        chunk_limit::<T>(N)
    }
    fn compute_generalized_index(
        parent: usize,
        path: &[PathElement],
    ) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Length, [])) => Ok(parent * 2 + 1),
            Some((PathElement::Index(i), rest)) if *i < N => {
                item_index::<T>(parent * 2, chunk_limit::<T>(N), T::item_length(), *i, rest)
            }
            _ => Err(MerkleizationError::InvalidPath(path.to_vec())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for Vector<T, N> {}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for List<T, N> {}
impl<T, const N: usize> FromIterator<T> for List<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self(iter.into_iter().collect())
    }
}
