//! Compile-time witnesses: `witness` must build, `witness_bad` must not.
use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::{HashedPartialTrie, Node, StandardTrie};
use eth_trie_utils::trie_ops::ValOrHash;

fn shared<T: Send + Sync + 'static>() {}

pub fn all() {
    shared::<HashedPartialTrie>();
    shared::<StandardTrie>();
    shared::<Node<HashedPartialTrie>>();
    shared::<Node<StandardTrie>>();
    shared::<Nibbles>();
    shared::<ValOrHash>();
}

#[cfg(feature = "witness_bad")]
pub fn bad() {
    shared::<std::rc::Rc<u8>>();
}
