//! Deterministic stand-ins for std's hash containers. Lookup compares keys with Eq (which may fork
//! on symbolic keys); iteration order is insertion order, or every permutation when the harness
//! asks for it (std leaves the order unspecified).
use super::{choose, opt};
use std::borrow::Borrow;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub struct HashMap<K, V> {
    v: Vec<(K, V)>,
}
fn order(n: usize) -> Vec<usize> {
    let mut idx: Vec<usize> = (0..n).collect();
    if n >= 2 && n <= opt("perm_maps", 0) as usize {
        let mut out = vec![];
        while idx.len() > 1 {
            let k = choose(idx.len());
            out.push(idx.remove(k));
        }
        out.extend(idx);
        return out;
    }
    if opt("reverse_maps", 0) != 0 {
        idx.reverse();
    }
    idx
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        HashMap { v: vec![] }
    }
}
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
        let o = order(self.v.len());
        o.into_iter().map(|i| (&self.v[i].0, &self.v[i].1)).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<(&K, &mut V)> {
        let o = order(self.v.len());
        let mut slots: Vec<Option<(&K, &mut V)>> = self.v.iter_mut().map(|e| Some((&e.0, &mut e.1))).collect();
        o.into_iter().map(|i| slots[i].take().unwrap()).collect::<Vec<_>>().into_iter()
    }
    pub fn keys(&self) -> std::vec::IntoIter<&K> {
        self.iter().map(|e| e.0).collect::<Vec<_>>().into_iter()
    }
    pub fn values(&self) -> std::vec::IntoIter<&V> {
        self.iter().map(|e| e.1).collect::<Vec<_>>().into_iter()
    }
    pub fn values_mut(&mut self) -> std::vec::IntoIter<&mut V> {
        self.iter_mut().map(|e| e.1).collect::<Vec<_>>().into_iter()
    }
    pub fn into_keys(self) -> std::vec::IntoIter<K> {
        self.into_iter().map(|e| e.0).collect::<Vec<_>>().into_iter()
    }
    pub fn into_values(self) -> std::vec::IntoIter<V> {
        self.into_iter().map(|e| e.1).collect::<Vec<_>>().into_iter()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
        std::mem::take(self).into_iter()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        self.v.retain_mut(|e| f(&e.0, &mut e.1))
    }
}
impl<K: Eq + Hash, V> HashMap<K, V> {
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        for (i, e) in self.v.iter().enumerate() {
            if e.0.borrow() == k {
                return Some(i);
            }
        }
        None
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.v[i].1)
    }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| (&self.v[i].0, &self.v[i].1))
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &mut self.v[i].1)
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.v[i].1, v)),
            None => {
                self.v.push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| self.v.remove(i).1)
    }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| self.v.remove(i))
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(Occ { m: self, i }),
            None => Entry::Vacant(Vac { m: self, k }),
        }
    }
}
pub enum Entry<'a, K, V> {
    Occupied(Occ<'a, K, V>),
    Vacant(Vac<'a, K, V>),
}
pub struct Occ<'a, K, V> {
    m: &'a mut HashMap<K, V>,
    i: usize,
}
pub struct Vac<'a, K, V> {
    m: &'a mut HashMap<K, V>,
    k: K,
}
impl<'a, K, V> Occ<'a, K, V> {
    pub fn get(&self) -> &V {
        &self.m.v[self.i].1
    }
    pub fn key(&self) -> &K {
        &self.m.v[self.i].0
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.v[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m.v[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(&mut self.m.v[self.i].1, v)
    }
    pub fn remove(self) -> V {
        self.m.v.remove(self.i).1
    }
}
impl<'a, K, V> Vac<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V {
        self.m.v.push((self.k, v));
        &mut self.m.v.last_mut().unwrap().1
    }
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => e.insert(v),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => {
                let v = f(&e.k);
                e.insert(v)
            }
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(v) => v.key(),
        }
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        let o = order(self.v.len());
        let mut s: Vec<Option<(K, V)>> = self.v.into_iter().map(Some).collect();
        o.into_iter().map(|i| s[i].take().unwrap()).collect::<Vec<_>>().into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = HashMap::new();
        for (k, v) in i {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        for (k, v) in i {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) {
        for (k, v) in i {
            self.insert(*k, *v);
        }
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.v.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w))
    }
}
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> std::ops::Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

#[derive(Clone, Debug)]
pub struct HashSet<K> {
    m: HashMap<K, ()>,
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        HashSet { m: HashMap::new() }
    }
}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn iter(&self) -> std::vec::IntoIter<&K> {
        self.m.keys()
    }
}
impl<K: Eq + Hash> HashSet<K> {
    pub fn insert(&mut self, k: K) -> bool {
        if self.m.contains_key(&k) {
            return false;
        }
        self.m.insert(k, ());
        true
    }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.contains_key(k)
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.remove(k).is_some()
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = std::vec::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        self.m.into_keys()
    }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = std::vec::IntoIter<&'a K>;
    fn into_iter(self) -> Self::IntoIter {
        self.m.keys()
    }
}
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let mut s = HashSet::new();
        for k in i {
            s.insert(k);
        }
        s
    }
}
impl<K: Eq + Hash> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
        for k in i {
            self.insert(k);
        }
    }
}
