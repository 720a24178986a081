use bytes::Bytes;
use eth_trie_utils::nibbles::*;
use eth_trie_utils::partial_trie::*;
use eth_trie_utils::trie_ops::ValOrHash;
use eth_trie_utils::trie_subsets::*;
use ethereum_types::{H256, U128, U256, U512};
use std::ops::{Deref, DerefMut, Range};
use std::str::FromStr;

type H = HashedPartialTrie;
type S = StandardTrie;

macro_rules! trie_roots {
    ($t:ty, $m:ident) => {
        pub mod $m {
            use super::*;
            pub fn new(n: Node<$t>) -> $t { <$t as PartialTrie>::new(n) }
            pub fn from_node(n: Node<$t>) -> $t { n.into() }
            pub fn default() -> $t { Default::default() }
            pub fn insert(t: &mut $t, k: Nibbles, v: ValOrHash) { t.insert(k, v) }
            pub fn extend(t: &mut $t, n: Vec<(Nibbles, ValOrHash)>) { PartialTrie::extend(t, n) }
            pub fn from_iter(n: Vec<(Nibbles, ValOrHash)>) -> $t { n.into_iter().collect() }
            pub fn get(t: &$t, k: Nibbles) -> Option<&[u8]> { t.get(k) }
            pub fn delete(t: &mut $t, k: Nibbles) -> Option<Vec<u8>> { t.delete(k) }
            pub fn hash(t: &$t) -> H256 { t.hash() }
            pub fn hash_intern(t: &$t) -> impl Sized { TrieNodeIntern::hash_intern(t) }
            pub fn items(t: &$t) -> Vec<(Nibbles, ValOrHash)> {
                let mut r = Vec::new();
                for x in t.items() { r.push(x); }
                r
            }
            pub fn keys(t: &$t) -> Vec<Nibbles> {
                let mut r = Vec::new();
                for x in t.keys() { r.push(x); }
                r
            }
            pub fn values(t: &$t) -> Vec<ValOrHash> {
                let mut r = Vec::new();
                for x in t.values() { r.push(x); }
                r
            }
            pub fn clone(t: &$t) -> $t { t.clone() }
            pub fn node_clone(t: &Node<$t>) -> Node<$t> { t.clone() }
            pub fn clone_from(t: &mut $t, o: &$t) { t.clone_from(o) }
            pub fn eq(a: &$t, b: &$t) -> bool { a == b }
            pub fn ne(a: &$t, b: &$t) -> bool { a != b }
            pub fn node_eq(a: &Node<$t>, b: &Node<$t>) -> bool { a == b }
            pub fn deref(a: &$t) -> &Node<$t> { a.deref() }
            pub fn deref_mut(a: &mut $t) -> &mut Node<$t> { a.deref_mut() }
            pub fn deref_set(a: &mut $t, n: Node<$t>) { **a = n; }
            pub fn subset(t: &$t, ks: Vec<Nibbles>) -> SubsetTrieResult<$t> { create_trie_subset(t, ks) }
            pub fn subsets(t: &$t, ks: Vec<Vec<Nibbles>>) -> SubsetTrieResult<Vec<$t>> { create_trie_subsets(t, ks) }
            pub fn hash_twice(t: &$t) -> (H256, H256) { let a = t.hash(); (a, t.hash()) }
            pub fn insert_hash(t: &mut $t, k: Nibbles, v: ValOrHash) -> H256 { t.insert(k, v); t.hash() }
        }
    };
}
trie_roots!(H, th);
trie_roots!(S, ts);

pub mod nb {
    use super::*;
    pub fn from_bytes_be(b: &[u8]) -> Result<Nibbles, BytesToNibblesError> { Nibbles::from_bytes_be(b) }
    pub fn from_bytes_le(b: &[u8]) -> Result<Nibbles, BytesToNibblesError> { Nibbles::from_bytes_le(b) }
    pub fn from_nibble(n: u8) -> Nibbles { Nibbles::from_nibble(n) }
    pub fn get_nibble(n: &Nibbles, i: usize) -> u8 { n.get_nibble(i) }
    pub fn pop_next_nibble_front(n: &mut Nibbles) -> u8 { n.pop_next_nibble_front() }
    pub fn pop_next_nibble_back(n: &mut Nibbles) -> u8 { n.pop_next_nibble_back() }
    pub fn get_next_nibbles(n: &Nibbles, k: usize) -> Nibbles { n.get_next_nibbles(k) }
    pub fn pop_nibbles_front(n: &mut Nibbles, k: usize) -> Nibbles { n.pop_nibbles_front(k) }
    pub fn pop_nibbles_back(n: &mut Nibbles, k: usize) -> Nibbles { n.pop_nibbles_back(k) }
    pub fn push_nibble_front(n: &mut Nibbles, v: u8) { n.push_nibble_front(v) }
    pub fn push_nibble_back(n: &mut Nibbles, v: u8) { n.push_nibble_back(v) }
    pub fn push_nibbles_front(n: &mut Nibbles, v: &Nibbles) { n.push_nibbles_front(v) }
    pub fn get_nibble_range(n: &Nibbles, r: Range<usize>) -> Nibbles { n.get_nibble_range(r) }
    pub fn truncate_n_nibbles_front(n: &Nibbles, k: usize) -> Nibbles { n.truncate_n_nibbles_front(k) }
    pub fn truncate_n_nibbles_back(n: &Nibbles, k: usize) -> Nibbles { n.truncate_n_nibbles_back(k) }
    pub fn truncate_n_nibbles_front_mut(n: &mut Nibbles, k: usize) { n.truncate_n_nibbles_front_mut(k) }
    pub fn truncate_n_nibbles_back_mut(n: &mut Nibbles, k: usize) { n.truncate_n_nibbles_back_mut(k) }
    pub fn is_empty(n: &Nibbles) -> bool { n.is_empty() }
    pub fn identical_up_to(n: &Nibbles, o: &Nibbles) -> bool { n.nibbles_are_identical_up_to_smallest_count(o) }
    pub fn split_at_idx(n: &Nibbles, k: usize) -> (Nibbles, Nibbles) { n.split_at_idx(k) }
    pub fn split_at_idx_prefix(n: &Nibbles, k: usize) -> Nibbles { n.split_at_idx_prefix(k) }
    pub fn split_at_idx_postfix(n: &Nibbles, k: usize) -> Nibbles { n.split_at_idx_postfix(k) }
    pub fn merge_nibble(n: &Nibbles, v: u8) -> Nibbles { n.merge_nibble(v) }
    pub fn merge_nibbles(n: &Nibbles, v: &Nibbles) -> Nibbles { n.merge_nibbles(v) }
    pub fn reverse(n: &Nibbles) -> Nibbles { n.reverse() }
    pub fn diff_idx_any(a: &Nibbles, b: &Nibbles) -> usize { Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(a, b) }
    pub fn diff_idx_eq(a: &Nibbles, b: &Nibbles) -> usize { Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(a, b) }
    pub fn to_hex_prefix(n: &Nibbles, leaf: bool) -> Bytes { n.to_hex_prefix_encoding(leaf) }
    pub fn from_hex_prefix(b: &[u8]) -> Result<Nibbles, FromHexPrefixError> { Nibbles::from_hex_prefix_encoding(b) }
    pub fn min_bytes(n: &Nibbles) -> usize { n.min_bytes() }
    pub fn num_nibbles_in_key(k: &U512) -> usize { Nibbles::get_num_nibbles_in_key(k) }
    pub fn bytes_be(n: &Nibbles) -> Vec<u8> { n.bytes_be() }
    pub fn from_h256_be(h: H256) -> Nibbles { Nibbles::from_h256_be(h) }
    pub fn from_h256_le(h: H256) -> Nibbles { Nibbles::from_h256_le(h) }
    pub fn try_into_u256(n: &Nibbles) -> Result<U256, String> { n.try_into_u256() }
    pub fn eq(a: &Nibbles, b: &Nibbles) -> bool { a == b }
    pub fn clone(a: &Nibbles) -> Nibbles { a.clone() }
    pub fn default() -> Nibbles { Nibbles::default() }
    pub fn from_str(s: &str) -> Result<Nibbles, StrToNibblesError> { Nibbles::from_str(s) }
    pub fn fmt_display(n: &Nibbles, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(n, f) }
    pub fn fmt_lower(n: &Nibbles, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::LowerHex::fmt(n, f) }
    pub fn fmt_upper(n: &Nibbles, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::UpperHex::fmt(n, f) }
    pub fn cmp(a: &Nibbles, b: &Nibbles) -> std::cmp::Ordering { a.cmp(b) }

    pub fn to_u8(v: u8) -> Nibbles { v.to_nibbles() }
    pub fn to_u16(v: u16) -> Nibbles { v.to_nibbles() }
    pub fn to_u32(v: u32) -> Nibbles { v.to_nibbles() }
    pub fn to_u64(v: u64) -> Nibbles { v.to_nibbles() }
    pub fn to_U128(v: U128) -> Nibbles { v.to_nibbles() }
    pub fn to_U256(v: U256) -> Nibbles { v.to_nibbles() }
    pub fn to_U512(v: U512) -> Nibbles { v.to_nibbles() }
    pub fn pad_u8(v: u8) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn pad_u16(v: u16) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn pad_u32(v: u32) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn pad_u64(v: u64) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn pad_U128(v: U128) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn pad_U256(v: U256) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn pad_U512(v: U512) -> Nibbles { v.to_nibbles_byte_padded() }
    pub fn from_u8(v: u8) -> Nibbles { v.into() }
    pub fn from_u16(v: u16) -> Nibbles { v.into() }
    pub fn from_u32(v: u32) -> Nibbles { v.into() }
    pub fn from_u64(v: u64) -> Nibbles { v.into() }
    pub fn from_U128(v: U128) -> Nibbles { v.into() }
    pub fn from_U256(v: U256) -> Nibbles { v.into() }
    pub fn from_U512(v: U512) -> Nibbles { v.into() }
}

pub mod val {
    use super::*;
    pub fn from_u8(v: u8) -> ValOrHash { v.into() }
    pub fn from_u16(v: u16) -> ValOrHash { v.into() }
    pub fn from_u32(v: u32) -> ValOrHash { v.into() }
    pub fn from_u64(v: u64) -> ValOrHash { v.into() }
    pub fn from_U128(v: U128) -> ValOrHash { v.into() }
    pub fn from_U256(v: U256) -> ValOrHash { v.into() }
    pub fn from_U512(v: U512) -> ValOrHash { v.into() }
    pub fn from_H256(v: H256) -> ValOrHash { v.into() }
    pub fn from_vec(v: Vec<u8>) -> ValOrHash { v.into() }
    pub fn from_slice(v: &[u8]) -> ValOrHash { v.into() }
    pub fn expect_hash(v: ValOrHash) -> H256 { v.expect_hash() }
    pub fn expect_val(v: ValOrHash) -> Vec<u8> { v.expect_val() }
    pub fn is_val(v: &ValOrHash) -> bool { v.is_val() }
    pub fn is_hash(v: &ValOrHash) -> bool { v.is_hash() }
    pub fn as_val(v: &ValOrHash) -> Option<&Vec<u8>> { v.as_val() }
    pub fn as_hash(v: &ValOrHash) -> Option<&H256> { v.as_hash() }
    pub fn into_val(v: ValOrHash) -> Result<Vec<u8>, ValOrHash> { v.into_val() }
    pub fn into_hash(v: ValOrHash) -> Result<H256, ValOrHash> { v.into_hash() }
    pub fn eq(a: &ValOrHash, b: &ValOrHash) -> bool { a == b }
}

#[cfg(feature = "dbg")]
pub mod dbg {
    use super::*;
    use eth_trie_utils::debug_tools::diff::*;
    use eth_trie_utils::debug_tools::query::*;
    use eth_trie_utils::debug_tools::stats::*;
    pub fn diff(a: &H, b: &H) -> TrieDiff { create_diff_between_tries(a, b) }
    pub fn query_h(t: &H, k: Nibbles) -> DebugQueryOutput { get_path_from_query(t.deref(), k) }
    pub fn query_s(t: &S, k: Nibbles) -> DebugQueryOutput { get_path_from_query(t.deref(), k) }
    pub fn query_params(t: &H, k: Nibbles, a: bool, b: bool, c: bool) -> DebugQueryOutput {
        let q = DebugQueryParamsBuilder::default().print_key_pieces(a).print_node_type(b).print_node_specific_values(c).build(k);
        get_path_from_query(t.deref(), q)
    }
    pub fn query_fmt(q: &DebugQueryOutput, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(q, f) }
    pub fn diff_fmt(q: &TrieDiff, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(q, f) }
    pub fn stats_fmt(q: &TrieStats, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(q, f) }
    pub fn stats_h(t: &H) -> TrieStats { get_trie_stats(t) }
    pub fn stats_s(t: &S) -> TrieStats { get_trie_stats(t) }
    pub fn stats_named(t: &H, n: String) -> TrieStats { get_trie_stats_with_name(t, n) }
    pub fn stats_cmp(a: &TrieStats, b: &TrieStats) -> TrieComparison { a.compare(b) }
}

pub mod sd {
    use super::*;
    use crate::tokens::{round, Error};
    pub fn trie_h_named(t: &H) -> Result<H, Error> { round::<H, true>(t) }
    pub fn trie_h_compact(t: &H) -> Result<H, Error> { round::<H, false>(t) }
    pub fn trie_s_named(t: &S) -> Result<S, Error> { round::<S, true>(t) }
    pub fn trie_s_compact(t: &S) -> Result<S, Error> { round::<S, false>(t) }
    pub fn nibbles_named(t: &Nibbles) -> Result<Nibbles, Error> { round::<Nibbles, true>(t) }
    pub fn nibbles_compact(t: &Nibbles) -> Result<Nibbles, Error> { round::<Nibbles, false>(t) }
}

pub mod st {
    use super::*;
    use crate::selftest as s;
    use parking_lot::RwLock;
    pub fn nested_lock(a: &RwLock<u8>, b: &RwLock<u8>) -> u8 { s::nested_lock(a, b) }
    pub fn visit_under_lock(a: &RwLock<u8>, t: &H) -> u8 { s::visit_under_lock(a, t) }
    pub fn scoped_lock(a: &RwLock<u8>, t: &H) -> u8 { s::scoped_lock(a, t) }
    pub fn reads_clock() -> std::time::Instant { s::reads_clock() }
    pub fn reads_env() -> bool { s::reads_env() }
    pub fn counts() -> usize { s::counts() }
    pub fn random_order(x: &[u8]) -> usize { s::random_order(x) }
    pub fn address(x: &u8) -> usize { s::address(x) }
    pub fn mutates(t: &mut H) { s::mutates(t) }
    pub fn wrong_round(n: &Nibbles) -> Result<Nibbles, crate::tokens::Error> { s::wrong_round(n) }
    pub fn wrong_trie_round(t: &H) -> Result<H, crate::tokens::Error> { s::wrong_trie_round(t) }
    pub fn wrong_truncate(n: &Nibbles, k: usize) -> Nibbles { s::wrong_truncate(n, k) }
    pub fn wrong_get(t: &H, k: Nibbles) -> Option<&[u8]> { s::wrong_get(t, k) }
    pub fn wrong_insert(t: &mut H, k: Nibbles, v: ValOrHash) { s::wrong_insert(t, k, v) }
    pub fn split_leaf(t: &mut H, k: Nibbles, v: ValOrHash) { s::split_leaf(t, k, v) }
    pub fn replace_hash(t: &mut H, k: Nibbles, v: ValOrHash) { s::replace_hash(t, k, v) }
    pub fn wrong_delete(t: &mut H, k: Nibbles) -> Option<Vec<u8>> { s::wrong_delete(t, k) }
    pub fn wrong_hash(t: &H) -> H256 { s::wrong_hash(t) }
    pub fn wrong_eq(a: &H, b: &H) -> bool { s::wrong_eq(a, b) }
    pub fn wrong_extend(t: &mut H, n: Vec<(Nibbles, ValOrHash)>) { s::wrong_extend(t, n) }
    pub fn wrong_items(t: &H) -> Vec<(Nibbles, ValOrHash)> { s::wrong_items(t) }
    pub fn wrong_subset(t: &H, k: Vec<Nibbles>) -> eth_trie_utils::trie_subsets::SubsetTrieResult<H> { s::wrong_subset(t, k) }
    pub fn wrong_subsets(t: &H, k: Vec<Vec<Nibbles>>) -> eth_trie_utils::trie_subsets::SubsetTrieResult<Vec<H>> { s::wrong_subsets(t, k) }
    #[cfg(feature = "dbg")]
    pub fn wrong_query(t: &H, k: Nibbles) -> eth_trie_utils::debug_tools::query::DebugQueryOutput { s::wrong_query(t, k) }
    #[cfg(feature = "dbg")]
    pub fn wrong_stats(t: &H) -> eth_trie_utils::debug_tools::stats::TrieStats { s::wrong_stats(t) }
    #[cfg(feature = "dbg")]
    pub fn wrong_diff(a: &H, b: &H) -> eth_trie_utils::debug_tools::diff::TrieDiff { s::wrong_diff(a, b) }
    pub fn wrong_guard(n: &Nibbles, i: usize) -> u8 { s::wrong_guard(n, i) }
}
