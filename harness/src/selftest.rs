//! Positive examples: every rule that normally finds nothing must find these.
use eth_trie_utils::partial_trie::{HashedPartialTrie, PartialTrie};
use ethereum_types::H256;
use parking_lot::RwLock;

fn visit(t: &HashedPartialTrie) -> u8 {
    t.hash().0[0]
}

pub fn nested_lock(a: &RwLock<u8>, b: &RwLock<u8>) -> u8 {
    let g = a.read();
    let h = b.read();
    *g + *h
}

pub fn visit_under_lock(a: &RwLock<u8>, t: &HashedPartialTrie) -> u8 {
    let mut g = a.write();
    *g = visit(t);
    *g
}

pub fn scoped_lock(a: &RwLock<u8>, t: &HashedPartialTrie) -> u8 {
    let x = *a.read();
    {
        let mut g = a.write();
        *g = x;
    }
    let g = a.write();
    drop(g);
    visit(t)
}

pub fn reads_clock() -> std::time::Instant {
    std::time::Instant::now()
}

pub fn reads_env() -> bool {
    std::env::var("X").is_ok()
}

static COUNTER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn counts() -> usize {
    COUNTER.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

pub fn random_order(x: &[u8]) -> usize {
    x.iter().collect::<std::collections::HashSet<_>>().len()
}

pub fn address(x: &u8) -> usize {
    x as *const u8 as usize
}

pub fn mutates(t: &mut HashedPartialTrie) {
    t.delete(eth_trie_utils::nibbles::Nibbles::default());
}

/// Wrong: drops nibbles from the back although specified to drop from the front.
pub fn wrong_truncate(n: &eth_trie_utils::nibbles::Nibbles, k: usize) -> eth_trie_utils::nibbles::Nibbles {
    let k = if k > n.count { n.count } else { k };
    eth_trie_utils::nibbles::Nibbles { count: n.count - k, packed: n.packed >> (4 * k) }
}

/// Wrong: panics for the empty sequence only if overflow is checked.
pub fn wrong_guard(n: &eth_trie_utils::nibbles::Nibbles, i: usize) -> u8 {
    let k = n.count - i - 1;
    (n.packed >> (4 * k)).low_u32() as u8 & 15
}

use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::Node;
use eth_trie_utils::trie_ops::ValOrHash;

/// Wrong: a key that is a prefix of a stored key finds that key.
pub fn wrong_get(t: &HashedPartialTrie, k: Nibbles) -> Option<&[u8]> {
    match &**t {
        Node::Leaf { nibbles, value } if nibbles.count > k.count && nibbles.nibbles_are_identical_up_to_smallest_count(&k) => Some(value),
        _ => t.get(k),
    }
}

/// Wrong: forgets the value of a branch.
pub fn wrong_insert(t: &mut HashedPartialTrie, k: Nibbles, v: ValOrHash) {
    if let Node::Branch { value, .. } = &mut **t {
        *value = Vec::new();
    }
    t.insert(k, v)
}

/// Wrong: hangs the first leaf below an extension.
pub fn split_leaf(t: &mut HashedPartialTrie, k: Nibbles, v: ValOrHash) {
    if let (Node::Empty, ValOrHash::Val(value), true) = (&**t, &v, k.count == 2) {
        let child = HashedPartialTrie::new(Node::Leaf { nibbles: k.truncate_n_nibbles_front(1), value: value.clone() });
        **t = Node::Extension { nibbles: k.split_at_idx_prefix(1), child: std::sync::Arc::new(Box::new(child)) };
        return;
    }
    t.insert(k, v)
}

/// Wrong: replaces a hash node.
pub fn replace_hash(t: &mut HashedPartialTrie, k: Nibbles, v: ValOrHash) {
    if let Node::Hash(_) = &**t {
        **t = Node::Empty;
    }
    t.insert(k, v)
}

/// Wrong: removes a leaf with another key.
pub fn wrong_delete(t: &mut HashedPartialTrie, k: Nibbles) -> Option<Vec<u8>> {
    if let (Node::Leaf { .. }, true) = (&**t, k.is_empty()) {
        **t = Node::Empty;
        return None;
    }
    t.delete(k)
}

/// Wrong: not the hash of a leaf.
pub fn wrong_hash(t: &HashedPartialTrie) -> H256 {
    match &**t {
        Node::Leaf { .. } => H256::zero(),
        Node::Empty => H256::zero(),
        _ => t.hash(),
    }
}

/// Wrong: compares the kinds of the root nodes only.
pub fn wrong_eq(a: &HashedPartialTrie, b: &HashedPartialTrie) -> bool {
    std::mem::discriminant(&**a) == std::mem::discriminant(&**b)
}

/// Wrong: the first entry for a key wins.
pub fn wrong_extend(t: &mut HashedPartialTrie, n: Vec<(Nibbles, ValOrHash)>) {
    for (k, v) in n.into_iter().rev() {
        t.insert(k, v);
    }
}

/// Wrong: leaves out the value of a branch.
pub fn wrong_items(t: &HashedPartialTrie) -> Vec<(Nibbles, ValOrHash)> {
    let mut r = Vec::new();
    for (k, v) in t.items() {
        if !k.is_empty() { r.push((k, v)); }
    }
    r
}

/// Wrong: a subset without the root.
pub fn wrong_subset(t: &HashedPartialTrie, k: Vec<Nibbles>) -> eth_trie_utils::trie_subsets::SubsetTrieResult<HashedPartialTrie> {
    match k[0].is_empty() {
        true => Ok(HashedPartialTrie::new(Node::Empty)),
        false => eth_trie_utils::trie_subsets::create_trie_subset(t, k),
    }
}

/// Wrong: the second subset is created for the keys of the first one.
pub fn wrong_subsets(t: &HashedPartialTrie, mut k: Vec<Vec<Nibbles>>) -> eth_trie_utils::trie_subsets::SubsetTrieResult<Vec<HashedPartialTrie>> {
    k[1] = k[0].clone();
    eth_trie_utils::trie_subsets::create_trie_subsets(t, k)
}

/// Wrong: follows another key.
#[cfg(feature = "dbg")]
pub fn wrong_query(t: &HashedPartialTrie, k: Nibbles) -> eth_trie_utils::debug_tools::query::DebugQueryOutput {
    let k = if k.count == 3 { k.truncate_n_nibbles_front(1) } else { k };
    eth_trie_utils::debug_tools::query::get_path_from_query(&**t, k)
}

/// Wrong: the statistics of a child.
#[cfg(feature = "dbg")]
pub fn wrong_stats(t: &HashedPartialTrie) -> eth_trie_utils::debug_tools::stats::TrieStats {
    match &**t {
        Node::Extension { child, .. } => eth_trie_utils::debug_tools::stats::get_trie_stats(&***child),
        _ => eth_trie_utils::debug_tools::stats::get_trie_stats(t),
    }
}

/// Wrong: the two leaves are swapped.
#[cfg(feature = "dbg")]
pub fn wrong_diff(a: &HashedPartialTrie, b: &HashedPartialTrie) -> eth_trie_utils::debug_tools::diff::TrieDiff {
    use eth_trie_utils::debug_tools::diff::create_diff_between_tries;
    match &**a {
        Node::Leaf { .. } => create_diff_between_tries(b, a),
        _ => create_diff_between_tries(a, b),
    }
}

/// Wrong: the length is not part of what is serialised.
pub fn wrong_round(n: &eth_trie_utils::nibbles::Nibbles) -> Result<eth_trie_utils::nibbles::Nibbles, crate::tokens::Error> {
    let packed = crate::tokens::round::<_, true>(&n.packed)?;
    Ok(eth_trie_utils::nibbles::Nibbles { count: (packed.bits() + 3) / 4, packed })
}

/// Wrong: branches come back without their value.
pub fn wrong_trie_round(t: &HashedPartialTrie) -> Result<HashedPartialTrie, crate::tokens::Error> {
    let node = match &**t {
        Node::Branch { children, .. } => Node::Branch { children: crate::tokens::round::<_, false>(children)?, value: vec![] },
        n => n.clone(),
    };
    Ok(HashedPartialTrie::new(node))
}
