//! A simulated disk: files with durable versions, unsynced writes, and what a crash makes of them.
use crate::rng::splitmix;

#[derive(Clone, Debug)]
pub struct Image<I> {
    pub bytes: Vec<u8>,
    /// What the bytes are known to hold, while they are exactly what was written.
    pub intact: Option<I>,
}
pub struct File<I> {
    durable: Vec<Image<I>>,
    pending: Option<Image<I>>,
}
/// What a crash did to an unsynced write.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    None,
    Lost,
    Kept,
    Torn,
}
impl<I: Clone> Default for File<I> {
    fn default() -> Self {
        File { durable: Vec::new(), pending: None }
    }
}
impl<I: Clone> File<I> {
    /// What a reader sees now.
    pub fn seen(&self) -> Option<&Image<I>> {
        self.pending.as_ref().or(self.durable.last())
    }
    pub fn seen_mut(&mut self) -> Option<&mut Image<I>> {
        self.pending.as_mut().or(self.durable.last_mut())
    }
    /// Replaces the contents.
    pub fn write(&mut self, bytes: Vec<u8>, intact: Option<I>) {
        self.pending = Some(Image { bytes, intact });
    }
    /// Overwrites in place: what the new bytes do not cover stays.
    pub fn overwrite(&mut self, new: &[u8]) {
        let mut bytes = self.seen().map(|i| i.bytes.clone()).unwrap_or_default();
        if bytes.len() < new.len() {
            bytes.resize(new.len(), 0);
        }
        bytes[..new.len()].copy_from_slice(new);
        self.pending = Some(Image { bytes, intact: None });
    }
    pub fn sync(&mut self) {
        if let Some(p) = self.pending.take() {
            self.durable.push(p);
            if self.durable.len() > 4 {
                self.durable.remove(0);
            }
        }
    }
    /// An older version comes back.
    pub fn stale(&mut self) -> bool {
        self.pending = None;
        if self.durable.len() > 1 {
            self.durable.pop();
            return true;
        }
        false
    }
    pub fn crash(&mut self, salt: u64) -> Fate {
        let Some(p) = self.pending.take() else { return Fate::None };
        let mut x = salt;
        match splitmix(&mut x) % 4 {
            0 => Fate::Lost,
            1 => {
                self.durable.push(p);
                Fate::Kept
            }
            k => {
                let cut = (splitmix(&mut x) % (p.bytes.len() as u64 + 1)) as usize;
                let mut bytes = if k == 2 {
                    Vec::new()
                } else {
                    self.durable.last().map(|d| d.bytes.clone()).unwrap_or_default()
                };
                if bytes.len() < cut {
                    bytes.resize(cut, 0);
                }
                bytes[..cut].copy_from_slice(&p.bytes[..cut]);
                let intact = if bytes == p.bytes { p.intact } else { None };
                self.durable.push(Image { bytes, intact });
                Fate::Torn
            }
        }
    }
}
