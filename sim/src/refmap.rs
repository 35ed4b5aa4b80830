//! Reads a map as a list of its entries, in order, duplicates kept.
use serde::de::{Deserialize, Deserializer, MapAccess, Visitor};
use std::marker::PhantomData;

pub fn entries<'de, D: Deserializer<'de>, K: Deserialize<'de>>(d: D) -> Result<Vec<(K, bool)>, D::Error> {
    struct V<K>(PhantomData<K>);
    impl<'de, K: Deserialize<'de>> Visitor<'de> for V<K> {
        type Value = Vec<(K, bool)>;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("a map")
        }
        fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Self::Value, A::Error> {
            let mut v = Vec::new();
            while let Some(e) = m.next_entry()? {
                v.push(e);
            }
            Ok(v)
        }
    }
    d.deserialize_map(V(PhantomData))
}
