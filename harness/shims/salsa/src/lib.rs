//! A small, obviously-correct stand-in for the part of salsa-2022 that analyzer-core uses.  The real crate is a git
//! dependency which is not available offline.  Queries are memoised on their arguments, exactly as salsa does while no
//! input is mutated (analyzer-core never mutates one: it always creates new inputs); setting an input drops every memo.
//! Everything created lives until the database is dropped, so returned references stay valid.
use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashMap;
use std::hash::Hash;
use std::marker::PhantomData;

pub use salsa_macros_shim::{accumulator, db, input, interned, jar, tracked};

pub trait Database {}

pub trait DbWithJar<J>: Database {
	#[doc(hidden)]
	fn __rt(&self) -> &Runtime;
}

pub trait Accumulator {
	type Data: Clone + 'static;
}

pub struct Storage<DB: ?Sized> {
	rt: Runtime,
	_p: PhantomData<fn(&DB)>,
}

impl<DB: ?Sized> Default for Storage<DB> {
	fn default() -> Self { Self { rt: Default::default(), _p: PhantomData } }
}

impl<DB: ?Sized> Storage<DB> {
	pub fn __rt(&self) -> &Runtime { &self.rt }
}

type NodeId = usize;

struct Node {
	deps: Vec<NodeId>,
	accs: Vec<(TypeId, Box<dyn Any>)>,
}

#[derive(Default)]
pub struct Runtime {
	// structs: per struct type, a table of boxed field tuples (stable addresses, append only)
	tables: UnsafeCell<HashMap<TypeId, Vec<Box<dyn Any>>>>,
	interned: RefCell<HashMap<TypeId, Box<dyn Any>>>,
	// memo: per function, HashMap<K, (NodeId, index in values)>
	memos: RefCell<HashMap<TypeId, Box<dyn Any>>>,
	values: UnsafeCell<Vec<Box<dyn Any>>>,
	nodes: RefCell<Vec<Node>>,
	stack: RefCell<Vec<NodeId>>,
	revision: Cell<u64>,
}

impl Runtime {
	pub fn alloc<F: Any>(&self, ty: TypeId, fields: F) -> u32 {
		let tables = unsafe { &mut *self.tables.get() };
		let t = tables.entry(ty).or_default();
		t.push(Box::new(fields));
		(t.len() - 1) as u32
	}

	pub fn get<F: Any>(&self, ty: TypeId, id: u32) -> &F {
		let tables = unsafe { &*self.tables.get() };
		let p: *const F = tables[&ty][id as usize].downcast_ref::<F>().unwrap();
		unsafe { &*p }
	}

	pub fn set<F: Any>(&mut self, ty: TypeId, id: u32) -> &mut F {
		self.revision.set(self.revision.get() + 1);
		self.memos.borrow_mut().clear();
		let tables = self.tables.get_mut();
		tables.get_mut(&ty).unwrap()[id as usize].downcast_mut::<F>().unwrap()
	}

	pub fn intern<F: Any + Eq + Hash + Clone>(&self, ty: TypeId, fields: F) -> u32 {
		let mut i = self.interned.borrow_mut();
		let m = i.entry(ty).or_insert_with(|| Box::new(HashMap::<F, u32>::new()));
		let m = m.downcast_mut::<HashMap<F, u32>>().unwrap();
		if let Some(id) = m.get(&fields) {
			return *id;
		}
		let id = self.alloc(ty, fields.clone());
		m.insert(fields, id);
		id
	}

	pub fn push<A: 'static, D: Any>(&self, data: D) {
		let top = *self.stack.borrow().last().expect("cannot accumulate values outside of an active tracked function");
		self.nodes.borrow_mut()[top].accs.push((TypeId::of::<A>(), Box::new(data)));
	}

	fn run<K: Any + Eq + Hash + Clone, V: Any>(&self, f: TypeId, key: K, body: impl FnOnce() -> V) -> (NodeId, usize) {
		let found = {
			let mut m = self.memos.borrow_mut();
			let m = m.entry(f).or_insert_with(|| Box::new(HashMap::<K, (NodeId, usize)>::new()));
			m.downcast_ref::<HashMap<K, (NodeId, usize)>>().unwrap().get(&key).copied()
		};
		let hit = match found {
			Some(hit) => hit,
			None => {
				let node = {
					let mut n = self.nodes.borrow_mut();
					n.push(Node { deps: vec![], accs: vec![] });
					n.len() - 1
				};
				self.stack.borrow_mut().push(node);
				struct Pop<'a>(&'a RefCell<Vec<NodeId>>);
				impl Drop for Pop<'_> {
					fn drop(&mut self) { self.0.borrow_mut().pop(); }
				}
				let guard = Pop(&self.stack);
				let v = body();
				drop(guard);
				let values = unsafe { &mut *self.values.get() };
				values.push(Box::new(v));
				let hit = (node, values.len() - 1);
				let mut m = self.memos.borrow_mut();
				let m = m.entry(f).or_insert_with(|| Box::new(HashMap::<K, (NodeId, usize)>::new()));
				m.downcast_mut::<HashMap<K, (NodeId, usize)>>().unwrap().insert(key, hit);
				hit
			}
		};
		if let Some(top) = self.stack.borrow().last() {
			self.nodes.borrow_mut()[*top].deps.push(hit.0);
		}
		hit
	}

	pub fn memo<K: Any + Eq + Hash + Clone, V: Any>(&self, f: TypeId, key: K, body: impl FnOnce() -> V) -> &V {
		let (_, v) = self.run(f, key, body);
		let values = unsafe { &*self.values.get() };
		let p: *const V = values[v].downcast_ref::<V>().unwrap();
		unsafe { &*p }
	}

	pub fn accumulated<A: Accumulator + 'static, K: Any + Eq + Hash + Clone, V: Any>(
		&self,
		f: TypeId,
		key: K,
		body: impl FnOnce() -> V,
	) -> Vec<A::Data> {
		let (node, _) = self.run(f, key, body);
		let nodes = self.nodes.borrow();
		let (mut seen, mut todo, mut out) = (std::collections::HashSet::new(), vec![node], vec![]);
		while let Some(n) = todo.pop() {
			if !seen.insert(n) {
				continue;
			}
			for (ty, d) in &nodes[n].accs {
				if *ty == TypeId::of::<A>() {
					out.push(d.downcast_ref::<A::Data>().unwrap().clone());
				}
			}
			todo.extend(nodes[n].deps.iter().rev());
		}
		out
	}
}

pub struct Setter<'a, T>(pub &'a mut T);

impl<'a, T> Setter<'a, T> {
	pub fn to(self, v: T) -> T { std::mem::replace(self.0, v) }
}
