//! Stands in for plist, which is not available offline: a persistent map.
use std::{borrow::Borrow, rc::Rc};

enum Node<K, V> {
    Nil,
    Cons(K, Option<V>, Rc<Node<K, V>>),
}

pub struct FlailMap<K, V>(Rc<Node<K, V>>);
pub type Map<K, V> = FlailMap<K, V>;

impl<K, V> Clone for FlailMap<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

impl<K: Eq, V> FlailMap<K, V> {
    pub fn new(entries: impl IntoIterator<Item = (K, V)>) -> Self {
        Self(Rc::new(Node::Nil)).insert_iter(entries)
    }

    pub fn insert(&self, key: K, value: V) -> Self {
        Self(Rc::new(Node::Cons(key, Some(value), self.0.clone())))
    }

    pub fn remove(&self, key: K) -> Self {
        Self(Rc::new(Node::Cons(key, None, self.0.clone())))
    }

    pub fn insert_iter(&self, entries: impl IntoIterator<Item = (K, V)>) -> Self {
        let mut map = self.clone();
        for (key, value) in entries {
            map = map.insert(key, value);
        }
        map
    }

    pub fn get<Q: Eq + ?Sized>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let mut node = &*self.0;
        while let Node::Cons(k, v, next) = node {
            if k.borrow() == key {
                return v.as_ref();
            }
            node = next;
        }
        None
    }

    pub fn contains_key<Q: Eq + ?Sized>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.get(key).is_some()
    }
}

impl<K: Eq, V> FromIterator<(K, V)> for FlailMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(entries: I) -> Self {
        Self::new(entries)
    }
}

impl<K: Eq, V> Default for FlailMap<K, V> {
    fn default() -> Self {
        Self::new([])
    }
}

impl<K, V> Drop for FlailMap<K, V> {
    fn drop(&mut self) {
        // Without recursion.
        let mut node = std::mem::replace(&mut self.0, Rc::new(Node::Nil));
        while let Ok(Node::Cons(_, _, next)) = Rc::try_unwrap(node) {
            node = next;
        }
    }
}
