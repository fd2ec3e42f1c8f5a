use std::ops::Range;

/// Text edits against an original source, applied in one go.
pub struct Edits<'a> {
    text: &'a str,
    edits: Vec<(usize, usize, usize, String)>, // start, end, sequence, replacement
}

impl<'a> Edits<'a> {
    pub fn new(text: &'a str) -> Self {
        Edits { text, edits: Vec::new() }
    }
    pub fn text(&self) -> &'a str {
        self.text
    }
    pub fn insert(&mut self, at: usize, s: &str) {
        let n = self.edits.len();
        self.edits.push((at, at, n, s.to_string()));
    }
    pub fn replace(&mut self, r: Range<usize>, s: &str) {
        let n = self.edits.len();
        self.edits.push((r.start, r.end, n, s.to_string()));
    }
    pub fn delete(&mut self, r: Range<usize>) {
        self.replace(r, "");
    }
    pub fn apply(&self) -> String {
        self.apply_range(0..self.text.len())
    }
    pub fn apply_range(&self, r: Range<usize>) -> String {
        let mut es: Vec<_> = self.edits.iter().filter(|e| e.0 >= r.start && e.1 <= r.end).collect();
        es.sort_by_key(|e| (e.0, e.1, e.2));
        let mut out = String::new();
        let mut pos = r.start;
        for e in es {
            if e.0 < pos {
                continue; // inside an already replaced range
            }
            out.push_str(&self.text[pos..e.0]);
            out.push_str(&e.3);
            pos = e.1;
        }
        out.push_str(&self.text[pos..r.end]);
        out
    }
}
