//! A transaction that lists vertices, and fails where told to.
use crate::{Gate, Pace};
use indradb::{BulkInsertItem, DynIter, Edge, Error, Identifier, Json, Result, Transaction, Vertex};
use mcstd::sched;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uuid::Uuid;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Listing {
    Fine,
    /// It cannot be begun.
    Refused,
    /// There is an error before this vertex, which follows all the same.
    Item(usize),
    /// There is an error instead of this vertex, and nothing follows.
    End(usize),
}

pub struct List {
    n: usize,
    how: Listing,
    gate: Option<(Arc<Gate>, Pace)>,
    failed: Mutex<Vec<String>>,
}
impl List {
    pub fn new(n: usize, how: Listing, gate: Option<(Arc<Gate>, Pace)>) -> List {
        List { n, how, gate, failed: Mutex::new(vec![]) }
    }
    /// The errors handed out.
    pub fn failures(&self) -> Vec<String> {
        self.failed.lock().unwrap().clone()
    }
    fn fail(&self, what: String) -> Error {
        self.failed.lock().unwrap().push(what.clone());
        Error::Datastore(Box::new(std::io::Error::other(what)))
    }
    fn pace(&self, listed: usize, over: bool) {
        let Some((g, p)) = &self.gate else { return };
        let mut s = g.st.lock().unwrap();
        s.listed = listed;
        match p {
            Pace::Free => {}
            // Patience runs out, should calls not begin before the end.
            Pace::Behind => {
                let t = Instant::now();
                while s.passed < listed && t.elapsed() < Duration::from_millis(200) {
                    s = g.cv.wait_timeout(s, Duration::from_millis(20)).unwrap().0;
                }
            }
            Pace::Ahead => {
                if over {
                    s.open = true;
                    g.cv.notify_all();
                }
            }
        }
    }
}

type R<'a, T> = Result<DynIter<'a, T>>;
type O<'a, T> = Result<Option<DynIter<'a, T>>>;

struct Items<'a> {
    l: &'a List,
    next: usize,
    erred: bool,
    over: bool,
    given: usize,
}
impl Iterator for Items<'_> {
    type Item = Result<Vertex>;
    fn next(&mut self) -> Option<Result<Vertex>> {
        sched::point("the listing");
        if self.over {
            return None;
        }
        let l = self.l;
        match l.how {
            Listing::Item(k) if k == self.next && !self.erred => {
                self.erred = true;
                return Some(Err(l.fail(format!("listing {k}"))));
            }
            Listing::End(k) if k == self.next => {
                self.over = true;
                l.pace(self.given, true);
                return Some(Err(l.fail(format!("listing {k}"))));
            }
            _ => {}
        }
        if self.next == l.n {
            self.over = true;
            l.pace(self.given, true);
            return None;
        }
        l.pace(self.given, false);
        self.next += 1;
        self.given += 1;
        Some(Ok(Vertex::with_id(Uuid::from_u128(self.next as u128 - 1), Identifier::default())))
    }
}
impl Drop for Items<'_> {
    fn drop(&mut self) {
        self.l.pace(0, true);
    }
}

impl<'a> Transaction<'a> for List {
    fn all_vertices(&'a self) -> R<'a, Vertex> {
        if self.how == Listing::Refused {
            return Err(self.fail("listing refused".into()));
        }
        Ok(Box::new(Items { l: self, next: 0, erred: false, over: false, given: 0 }))
    }
    fn vertex_count(&self) -> u64 {
        self.n as u64
    }
    fn range_vertices(&'a self, offset: Uuid) -> R<'a, Vertex> {
        // Another way to list, should it be used.
        let k = offset.as_u128();
        let it = self.all_vertices()?;
        Ok(Box::new(it.filter(move |v| v.as_ref().map_or(true, |v| v.id.as_u128() >= k))))
    }
    fn specific_vertices(&'a self, _: Vec<Uuid>) -> R<'a, Vertex> {
        Err(Error::Unsupported)
    }
    fn vertex_ids_with_property(&'a self, _: Identifier) -> O<'a, Uuid> {
        Err(Error::Unsupported)
    }
    fn vertex_ids_with_property_value(&'a self, _: Identifier, _: &Json) -> O<'a, Uuid> {
        Err(Error::Unsupported)
    }
    fn edge_count(&self) -> u64 {
        0
    }
    fn all_edges(&'a self) -> R<'a, Edge> {
        Err(Error::Unsupported)
    }
    fn range_edges(&'a self, _: Edge) -> R<'a, Edge> {
        Err(Error::Unsupported)
    }
    fn range_reversed_edges(&'a self, _: Edge) -> R<'a, Edge> {
        Err(Error::Unsupported)
    }
    fn specific_edges(&'a self, _: Vec<Edge>) -> R<'a, Edge> {
        Err(Error::Unsupported)
    }
    fn edges_with_property(&'a self, _: Identifier) -> O<'a, Edge> {
        Err(Error::Unsupported)
    }
    fn edges_with_property_value(&'a self, _: Identifier, _: &Json) -> O<'a, Edge> {
        Err(Error::Unsupported)
    }
    fn vertex_property(&self, _: &Vertex, _: Identifier) -> Result<Option<Json>> {
        Err(Error::Unsupported)
    }
    fn all_vertex_properties_for_vertex(&'a self, _: &Vertex) -> R<'a, (Identifier, Json)> {
        Err(Error::Unsupported)
    }
    fn edge_property(&self, _: &Edge, _: Identifier) -> Result<Option<Json>> {
        Err(Error::Unsupported)
    }
    fn all_edge_properties_for_edge(&'a self, _: &Edge) -> R<'a, (Identifier, Json)> {
        Err(Error::Unsupported)
    }
    fn delete_vertices(&mut self, _: Vec<Vertex>) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn delete_edges(&mut self, _: Vec<Edge>) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn delete_vertex_properties(&mut self, _: Vec<(Uuid, Identifier)>) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn delete_edge_properties(&mut self, _: Vec<(Edge, Identifier)>) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn create_vertex(&mut self, _: &Vertex) -> Result<bool> {
        Err(Error::Unsupported)
    }
    fn create_edge(&mut self, _: &Edge) -> Result<bool> {
        Err(Error::Unsupported)
    }
    fn bulk_insert(&mut self, _: Vec<BulkInsertItem>) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn index_property(&mut self, _: Identifier) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn set_vertex_properties(&mut self, _: Vec<Uuid>, _: Identifier, _: &Json) -> Result<()> {
        Err(Error::Unsupported)
    }
    fn set_edge_properties(&mut self, _: Vec<Edge>, _: Identifier, _: &Json) -> Result<()> {
        Err(Error::Unsupported)
    }
}
