//! The reference array: dimensions and a plain row-major list of entries.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ent {
    /// Identity of the element, 0 if any identity is fine (a new element).
    pub id: u32,
    pub val: u64,
}

pub fn new(val: u64) -> Ent {
    Ent { id: 0, val }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub dims: Vec<usize>,
    pub el: Vec<Ent>,
}

pub fn product(d: &[usize]) -> usize {
    d.iter().product()
}

impl Model {
    pub fn len(&self) -> usize {
        self.el.len()
    }

    pub fn is_empty(&self) -> bool {
        self.el.is_empty()
    }

    pub fn row(&self) -> usize {
        product(&self.dims[1..])
    }

    /// Same values, any identity.
    pub fn cloned(&self) -> Model {
        Model { dims: self.dims.clone(), el: self.el.iter().map(|e| new(e.val)).collect() }
    }

    pub fn from_fn(dims: &[usize], mut f: impl FnMut(&[usize]) -> Ent) -> Model {
        let n = product(dims);
        let mut el = Vec::with_capacity(n);
        let mut idx = vec![0; dims.len()];
        for _ in 0..n {
            el.push(f(&idx));
            bump(&mut idx, dims);
        }
        Model { dims: dims.to_vec(), el }
    }

    pub fn flat(&self, idx: &[usize]) -> usize {
        idx.iter().zip(&self.dims).fold(0, |a, (i, d)| a * d + i)
    }

    /// Growth or shrinkage of all dimensions; new places are `None`.
    pub fn resized(&self, nd: &[usize]) -> Vec<Option<Ent>> {
        let mut out = vec![];
        let n = product(nd);
        let mut idx = vec![0; nd.len()];
        for _ in 0..n {
            if !self.is_empty() && idx.iter().zip(&self.dims).all(|(i, d)| i < d) {
                out.push(Some(self.el[self.flat(&idx)]));
            } else {
                out.push(None);
            }
            bump(&mut idx, nd);
        }
        out
    }
}

pub fn bump(idx: &mut [usize], dims: &[usize]) {
    for i in (0..dims.len()).rev() {
        idx[i] += 1;
        if idx[i] < dims[i] {
            return;
        }
        idx[i] = 0;
    }
}
