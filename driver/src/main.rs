//! `mirdump`: a rustc wrapper that type-checks a crate as usual and, for the witness crate, writes
//! the monomorphised MIR reachable from its entry points (functions whose name starts with `e_`)
//! to a JSON file. Nothing of the analysed program is run.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod json;

use json::J;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    types: Vec<J>,
    ty_ids: HashMap<Ty, usize>,
    fns: Vec<J>,
    fn_ids: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    vtables: HashMap<(usize, String), usize>,
    vtable_js: Vec<J>,
    stop: Vec<String>,
    keep: Vec<String>,
    stop_exact: HashSet<String>,
    shims: HashMap<String, FnDef>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::N(x.try_into().ok().unwrap())
}
fn a(v: Vec<J>) -> J {
    J::A(v)
}

impl Cx {
    fn span(&mut self, sp: Span) -> J {
        let f = sp.get_filename().to_string();
        let l = sp.get_lines();
        let id = match self.file_ids.get(&f) {
            Some(i) => *i,
            None => {
                let i = self.files.len();
                self.files.push(f.clone());
                self.file_ids.insert(f, i);
                i
            }
        };
        a(vec![n(id as i128), n(l.start_line as i128)])
    }

    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&ty) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.ty_ids.insert(ty, id);
        let mut o: Vec<(&'static str, J)> = vec![("name", s(format!("{}", ty)))];
        let size = ty.layout().ok().map(|l| l.shape()).filter(|l| l.is_sized()).map(|l| l.size.bytes());
        if let Some(sz) = size {
            o.push(("size", n(sz as i128)));
        }
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(t) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(t.num_bytes() as i128 * 8)));
                }
                RigidTy::Uint(t) => {
                    o.push(("k", s("uint")));
                    o.push(("bits", n(t.num_bytes() as i128 * 8)));
                }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("def", s(def.name().to_string())));
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    o.push(("ak", s(kind)));
                    if def.repr().flags.is_transparent {
                        o.push(("transparent", J::B(true)));
                    }
                    let targs: Vec<J> = args.0.iter().filter_map(|g| g.ty().copied()).map(|t| n(self.ty(t) as i128)).collect();
                    o.push(("args", a(targs)));
                    let mut vs = vec![];
                    for v in def.variants() {
                        let discr = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val as i128
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(a(vec![s(f.name.to_string()), n(self.ty(ft) as i128)]));
                        }
                        vs.push(J::O(vec![("name", s(v.name().to_string())), ("discr", n(discr)), ("fields", a(fs))]));
                    }
                    o.push(("variants", a(vs)));
                }
                RigidTy::Array(t, c) => {
                    o.push(("k", s("array")));
                    o.push(("elem", n(self.ty(t) as i128)));
                    o.push(("len", c.eval_target_usize().map(|x| n(x as i128)).unwrap_or(J::Null)));
                }
                RigidTy::Slice(t) => {
                    o.push(("k", s("slice")));
                    o.push(("elem", n(self.ty(t) as i128)));
                }
                RigidTy::RawPtr(t, m) => {
                    o.push(("k", s("ptr")));
                    o.push(("to", n(self.ty(t) as i128)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, t, m) => {
                    o.push(("k", s("ref")));
                    o.push(("to", n(self.ty(t) as i128)));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef")));
                    if let Ok(i) = Instance::resolve(def, &args) {
                        o.push(("fn", n(self.inst(i) as i128)));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure")));
                    o.push(("def", s(def.name().to_string())));
                    // Upvar types are the elements of the tuple which is the last generic argument.
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        o.push(("upvars", n(self.ty(*t) as i128)));
                    }
                }
                RigidTy::Tuple(ts) => {
                    o.push(("k", s("tuple")));
                    let ids: Vec<J> = ts.iter().map(|t| n(self.ty(*t) as i128)).collect();
                    o.push(("elems", a(ids)));
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Pat(t, _) => {
                    o.push(("k", s("pat")));
                    o.push(("of", n(self.ty(t) as i128)));
                }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn is_stopped(&self, name: &str, full: &str) -> bool {
        if self.stop_exact.contains(name) {
            return true;
        }
        if self.keep.iter().any(|q| name.starts_with(&**q) || full.starts_with(&**q)) {
            return false;
        }
        self.stop.iter().any(|p| {
            if let Some(q) = p.strip_suffix('*') {
                name.starts_with(q) || full.starts_with(q)
            } else {
                name == p || full == p
            }
        })
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(id) = self.fn_ids.get(&i) {
            return *id;
        }
        // Redirect functions that have a stand-in in the witness crate.
        let def_name = i.def.def_id().name().to_string();
        if let Some(shim) = self.shims.get(&def_name).copied() {
            let args = i.args();
            let kind = |g: &GenericArgKind| match g {
                GenericArgKind::Lifetime(_) => 0,
                GenericArgKind::Type(_) => 1,
                GenericArgKind::Const(_) => 2,
            };
            // Lifetimes are erased here, and a function's own may be late-bound: only types and
            // constants have to correspond.
            let own = match shim.ty().kind() {
                TyKind::RigidTy(RigidTy::FnDef(_, own)) => own.0,
                _ => vec![],
            };
            let mut given = args.0.iter().filter(|g| kind(g) != 0).cloned();
            let same = own.iter().map(kind).filter(|k| *k != 0).eq(given.clone().map(|g| kind(&g)));
            let args = GenericArgs(own.iter().map(|g| match g {
                GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                _ => given.next().unwrap_or(g.clone()),
            }).collect());
            if !same {
                eprintln!("mirdump: cannot redirect {def_name}: other parameters");
            } else { match Instance::resolve(shim, &args) {
                Ok(j) => {
                    let id = self.inst(j);
                    self.fn_ids.insert(i, id);
                    return id;
                }
                Err(_) => eprintln!("mirdump: cannot redirect {def_name}"),
            } }
        }
        let id = self.fns.len();
        self.fns.push(J::Null);
        self.fn_ids.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn dump_fn(&mut self, i: Instance) -> J {
        let full = i.name().to_string();
        let def = i.def.def_id().name().to_string();
        let mut o = vec![("name", s(&full)), ("def", s(&def))];
        let targs: Vec<J> = i.args().0.iter().filter_map(|g| g.ty().copied()).map(|t| n(self.ty(t) as i128)).collect();
        o.push(("args", a(targs)));
        match i.kind {
            InstanceKind::Item => o.push(("kind", s("item"))),
            InstanceKind::Intrinsic => {
                o.push(("kind", s("intrinsic")));
                o.push(("iname", s(i.intrinsic_name().unwrap().to_string())));
            }
            InstanceKind::LlvmIntrinsic => o.push(("kind", s("llvm"))),
            InstanceKind::Virtual { idx } => {
                o.push(("kind", s("virtual")));
                o.push(("idx", n(idx as i128)));
                return J::O(o);
            }
            InstanceKind::Shim => o.push(("kind", s("shim"))),
        }
        if let Some(sig) = i.ty().kind().fn_sig() {
            if matches!(sig.value.safety, rustc_public::mir::Safety::Unsafe) {
                o.push(("unsafe", J::B(true)));
            }
        }
        let is_closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        o.push(("closure", J::B(is_closure)));
        if i.is_foreign_item() {
            o.push(("foreign", J::B(true)));
            return J::O(o);
        }
        if i.is_empty_shim() {
            o.push(("empty", J::B(true)));
            return J::O(o);
        }
        if self.is_stopped(&def, &full) {
            o.push(("stopped", J::B(true)));
            return J::O(o);
        }
        if i.kind == InstanceKind::Item && !i.has_body() {
            // the constructor of a tuple struct or variant, perhaps
            if let Some(sig) = i.ty().kind().fn_sig() {
                let r = sig.value.output();
                o.push(("ret", n(self.ty(r) as i128)));
            }
        }
        if i.kind == InstanceKind::Intrinsic || !(i.has_body() || i.kind == InstanceKind::Shim) {
            return J::O(o);
        }
        if let Some(b) = i.body() {
            o.push(("body", self.body(&b)));
        }
        J::O(o)
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| n(self.ty(l.ty) as i128)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(x, b) {
                    st.push(j);
                }
            }
            let t = self.term(&bb.terminator, b);
            blocks.push(a(vec![a(st), t]));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(a(vec![n(l as i128), s(v.name.to_string())]));
            }
        }
        J::O(vec![
            ("locals", a(locals)),
            ("argc", n(b.arg_locals().len() as i128)),
            ("spread", b.spread_arg().map(|l| n(l as i128)).unwrap_or(J::Null)),
            ("blocks", a(blocks)),
            ("names", a(names)),
            ("span", self.span(b.span)),
        ])
    }

    fn place(&mut self, p: &Place) -> J {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => a(vec![s("f"), n(*i as i128), n(self.ty(*t) as i128)]),
                ProjectionElem::Index(l) => a(vec![s("i"), n(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a(vec![s("ci"), n(*offset as i128), n(*min_length as i128), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a(vec![s("ss"), n(*from as i128), n(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => a(vec![s("d"), n(v.to_index() as i128)]),
                ProjectionElem::OpaqueCast(_) => continue,
            });
        }
        a(vec![n(p.local as i128), a(proj)])
    }

    fn operand(&mut self, op: &Operand) -> J {
        match op {
            Operand::Copy(p) => a(vec![s("c"), self.place(p)]),
            Operand::Move(p) => a(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => a(vec![s("k"), n(self.ty(c.const_.ty()) as i128), self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => a(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }

    fn konst(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(al) => self.decode(al, 0, c.ty(), 0),
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, al) => self.decode(al, 0, *t, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => J::O(vec![("unk", s(format!("{:?}", tc)))]),
            },
            k => J::O(vec![("unk", s(format!("{:?}", k)))]),
        }
    }

    fn zst(&mut self, ty: Ty) -> J {
        let empty = Allocation {
            bytes: vec![],
            provenance: ProvenanceMap { ptrs: vec![] },
            align: 1,
            mutability: Mutability::Not,
        };
        self.decode(&empty, 0, ty, 0)
    }

    fn uint(al: &Allocation, off: usize, len: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in (0..len).rev() {
            v = (v << 8) | (*al.bytes.get(off + i)?)? as u128;
        }
        Some(v)
    }

    fn prov(al: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    /// Decodes a constant into a value tree.
    fn decode(&mut self, al: &Allocation, off: usize, ty: Ty, depth: usize) -> J {
        let unk = |w: &str| J::O(vec![("unk", s(w))]);
        if depth > 40 {
            return unk("depth");
        }
        let Ok(layout) = ty.layout() else { return unk("layout") };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = ty.kind() else { return unk("type") };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::uint(al, off, size) {
                Some(v) => J::Big(v.to_string()),
                None => unk("uninit"),
            },
            RigidTy::Int(_) => match Self::uint(al, off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    J::Big((((v << sh) as i128) >> sh).to_string())
                }
                None => unk("uninit"),
            },
            RigidTy::Pat(t, _) => self.decode(al, off, t, depth + 1),
            RigidTy::Float(_) => match Self::uint(al, off, size) {
                Some(v) => J::O(vec![("float", J::Big(v.to_string()))]),
                None => unk("uninit"),
            },
            RigidTy::FnDef(def, args) => match Instance::resolve(def, &args) {
                Ok(i) => J::O(vec![("fn", n(self.inst(i) as i128))]),
                Err(_) => unk("fn"),
            },
            RigidTy::FnPtr(_) => match Self::prov(al, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => J::O(vec![("fn", n(self.inst(i) as i128))]),
                _ => unk("fnptr"),
            },
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return J::O(vec![("agg", a(vec![])), ("v", n(0))]) };
                let offsets = offsets.clone();
                let mut fs = vec![];
                for (i, t) in ts.iter().enumerate() {
                    fs.push(self.decode(al, off + offsets[i].bytes(), *t, depth + 1));
                }
                J::O(vec![("agg", a(fs)), ("v", n(0))])
            }
            RigidTy::Array(t, c) => {
                let len = c.eval_target_usize().unwrap_or(0) as usize;
                let esz = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                self.elems(al, off, t, len, esz, depth)
            }
            RigidTy::Adt(def, args) => {
                let (vidx, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return unk("empty"),
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            FieldsShape::Union(_) => vec![0; def.variants()[0].fields().len()],
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return unk("tagoff") };
                        let toff = off + offsets[*tag_field].bytes();
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value,
                            rustc_public::abi::Scalar::Union { value } => value,
                        };
                        let tsize = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = Self::prov(al, toff).is_some();
                        let v = Self::uint(al, toff, tsize);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(v) = v else { return unk("tag") };
                                let mut found = None;
                                for vd in def.variants() {
                                    let d = def.discriminant_for_variant(vd.idx()).val;
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    if d & mask == v {
                                        found = Some(vd.idx().to_index());
                                    }
                                }
                                match found {
                                    Some(f) => f,
                                    None => return unk("tag"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(v) = v else { return unk("tag") };
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & mask;
                                    let st = niche_variants.start().to_index();
                                    let en = niche_variants.end().to_index();
                                    if rel <= (en - st) as u128 {
                                        st + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let vd = &def.variants()[vidx];
                let mut fs = vec![];
                for (i, f) in vd.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let fo = offsets.get(i).copied().unwrap_or(0);
                    fs.push(self.decode(al, off + fo, ft, depth + 1));
                }
                self.ty(ty);
                J::O(vec![("agg", a(fs)), ("v", n(vidx as i128))])
            }
            RigidTy::Closure(_, args) => {
                let mut fs = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        if !ts.is_empty() && size > 0 {
                            return unk("closure const");
                        }
                        for t in ts {
                            fs.push(self.zst(t));
                        }
                    }
                }
                J::O(vec![("agg", a(fs)), ("v", n(0))])
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let Some(id) = Self::prov(al, off) else {
                    return match Self::uint(al, off, 8) {
                        Some(v) => J::O(vec![("addr", J::Big(v.to_string())), ("ty", n(self.ty(t) as i128))]),
                        None => unk("ptr"),
                    };
                };
                let addend = Self::uint(al, off, 8).unwrap_or(0) as usize;
                let mut stat = J::Null;
                let mem = match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(sd) => match sd.eval_initializer() {
                        Ok(m) => {
                            if addend == 0 && sd.ty() == t {
                                stat = s(sd.name().to_string());
                            }
                            m
                        }
                        Err(_) => return unk("static"),
                    },
                    GlobalAlloc::Function(i) => return J::O(vec![("fn", n(self.inst(i) as i128))]),
                    _ => return unk("galloc"),
                };
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = Self::uint(al, off + 8, 8).unwrap_or(0) as usize;
                        J::O(vec![("str", s(hex(&mem, addend, len)))])
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let len = Self::uint(al, off + 8, 8).unwrap_or(0) as usize;
                        let esz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        let v = self.elems(&mem, addend, e, len, esz, depth + 1);
                        J::O(vec![("slice", v), ("ty", n(self.ty(e) as i128))])
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                        let Some(vid) = Self::prov(al, off + 8) else { return unk("dyn") };
                        let GlobalAlloc::VTable(ct, tr) = GlobalAlloc::from(vid) else { return unk("vt") };
                        let vt = tr.map(|b| self.vtable(ct, b.skip_binder()));
                        let inner = self.decode(&mem, addend, ct, depth + 1);
                        J::O(vec![("ref", inner), ("vt", vt.map(|x| n(x as i128)).unwrap_or(J::Null)), ("ty", n(self.ty(ct) as i128))])
                    }
                    _ => {
                        let inner = self.decode(&mem, addend, t, depth + 1);
                        J::O(vec![("ref", inner), ("ty", n(self.ty(t) as i128)), ("static", stat)])
                    }
                }
            }
            _ => unk("kind"),
        }
    }

    fn elems(&mut self, al: &Allocation, off: usize, t: Ty, len: usize, esz: usize, depth: usize) -> J {
        if matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            return J::O(vec![("bytes", s(hex(al, off, len)))]);
        }
        let mut es = vec![];
        for i in 0..len {
            es.push(self.decode(al, off + i * esz, t, depth + 1));
        }
        J::O(vec![("arr", a(es))])
    }

    fn vtable(&mut self, ty: Ty, tr: ExistentialTraitRef) -> usize {
        let key = (self.ty(ty), format!("{:?}", tr));
        if let Some(i) = self.vtables.get(&key) {
            return *i;
        }
        let id = self.vtable_js.len();
        self.vtable_js.push(J::Null);
        self.vtables.insert(key, id);
        // `dyn for<'a> FnMut(&'a T)`: its vtable does not depend on the lifetime.
        let tr = ExistentialTraitRef { generic_args: GenericArgs(tr.generic_args.0.iter().map(erase_arg).collect()), ..tr };
        let full = tr.with_self_ty(ty);
        let mut slots = vec![];
        let entries = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| full.vtable_entries())).unwrap_or_default();
        for e in entries {
            slots.push(match e {
                VtblEntry::Method(i) => n(self.inst(i) as i128),
                _ => J::Null,
            });
        }
        self.vtable_js[id] =
            J::O(vec![("ty", n(self.ty(ty) as i128)), ("trait", s(tr.def_id.name().to_string())), ("slots", a(slots))]);
        id
    }

    fn stmt(&mut self, st: &Statement, b: &Body) -> Option<J> {
        Some(match &st.kind {
            StatementKind::Assign(p, r) => a(vec![s("="), self.place(p), self.rvalue(r, b), self.span(st.source_info.span)]),
            StatementKind::SetDiscriminant { place, variant_index } => {
                a(vec![s("sd"), self.place(place), n(variant_index.to_index() as i128)])
            }
            StatementKind::StorageLive(l) => a(vec![s("sl"), n(*l as i128)]),
            StatementKind::StorageDead(l) => a(vec![s("dead"), n(*l as i128)]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                a(vec![s("copy"), self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)])
            }
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> J {
        match r {
            Rvalue::Use(o, _) => a(vec![s("use"), self.operand(o)]),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                a(vec![s("ref"), J::B(m), self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => a(vec![s("reborrow"), J::B(*m == Mutability::Mut), self.place(p)]),
            Rvalue::AddressOf(k, p) => a(vec![s("addr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::CopyForDeref(p) => a(vec![s("use"), a(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b.locals()).ok().map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                a(vec![s("discr"), self.place(p), t])
            }
            Rvalue::Len(p) => a(vec![s("len"), self.place(p)]),
            Rvalue::BinaryOp(op, x, y) => {
                let t = x.ty(b.locals()).ok().map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                a(vec![s("bin"), s(format!("{:?}", op)), self.operand(x), self.operand(y), t])
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let t = x.ty(b.locals()).ok().map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                a(vec![s("cbin"), s(format!("{:?}", op)), self.operand(x), self.operand(y), t])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(b.locals()).ok().map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                a(vec![s("un"), s(format!("{:?}", op)), self.operand(x), t])
            }
            Rvalue::Repeat(o, c) => {
                a(vec![s("repeat"), self.operand(o), c.eval_target_usize().map(|x| n(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::ThreadLocalRef(c) => {
                let sd = StaticDef::try_from(*c).ok();
                match sd.and_then(|d| d.eval_initializer().ok().map(|m| (d, m))) {
                    Some((d, m)) => {
                        let t = d.ty();
                        let inner = self.decode(&m, 0, t, 0);
                        a(vec![s("tls"), J::O(vec![("ref", inner), ("ty", n(self.ty(t) as i128)), ("static", s(d.name().to_string()))])])
                    }
                    None => a(vec![s("tls"), J::Null]),
                }
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b.locals()).ok();
                let mut extra = J::Null;
                if let CastKind::PointerCoercion(pc) = k {
                    match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            if let Some(TyKind::RigidTy(RigidTy::FnDef(d, g))) = from.map(|t| t.kind()) {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &g) {
                                    extra = n(self.inst(i) as i128);
                                }
                            }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            if let Some(TyKind::RigidTy(RigidTy::Closure(d, g))) = from.map(|t| t.kind()) {
                                if let Ok(i) = Instance::resolve_closure(d, &g, ClosureKind::FnOnce) {
                                    extra = n(self.inst(i) as i128);
                                }
                            }
                        }
                        PointerCoercion::Unsize => {
                            if let Some(ft) = from {
                                extra = self.unsize(ft, *t);
                            }
                        }
                        _ => (),
                    }
                }
                let f = from.map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                a(vec![s("cast"), s(format!("{:?}", k)), self.operand(o), n(self.ty(*t) as i128), f, extra])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match k {
                    AggregateKind::Array(t) => a(vec![s("array"), n(self.ty(*t) as i128)]),
                    AggregateKind::Tuple => a(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, g, _, active) => {
                        let t = d.ty_with_args(g);
                        a(vec![
                            s("adt"),
                            n(self.ty(t) as i128),
                            n(v.to_index() as i128),
                            active.map(|x| n(x as i128)).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, g) => {
                        let t = Ty::new_closure(*d, g.clone());
                        a(vec![s("closure"), n(self.ty(t) as i128)])
                    }
                    AggregateKind::RawPtr(t, _) => a(vec![s("rawptr"), n(self.ty(*t) as i128)]),
                    _ => a(vec![s("other")]),
                };
                a(vec![s("agg"), kj, a(os)])
            }
        }
    }

    fn unsize(&mut self, from: Ty, to: Ty) -> J {
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return J::Null };
        match (f.kind(), t.kind()) {
            (_, TyKind::RigidTy(RigidTy::Slice(_))) => match f.kind() {
                TyKind::RigidTy(RigidTy::Array(_, c)) => {
                    a(vec![s("slice"), c.eval_target_usize().map(|x| n(x as i128)).unwrap_or(J::Null)])
                }
                _ => J::Null,
            },
            (fk, tk @ TyKind::RigidTy(RigidTy::Dynamic(..))) => {
                if matches!(fk, TyKind::RigidTy(RigidTy::Dynamic(..))) {
                    return a(vec![s("upcast")]);
                }
                match tk.trait_principal() {
                    Some(b) => {
                        let v = self.vtable(f, b.skip_binder());
                        a(vec![s("vt"), n(v as i128)])
                    }
                    None => a(vec![s("auto")]),
                }
            }
            _ => J::Null,
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> J {
        let sp = self.span(t.source_info.span);
        let cleanup = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(x) => n(*x as i128),
            _ => J::Null,
        };
        match &t.kind {
            TerminatorKind::Goto { target } => a(vec![s("goto"), n(*target as i128)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br: Vec<J> = targets.branches().map(|(v, t)| a(vec![J::Big(v.to_string()), n(t as i128)])).collect();
                let ty = discr.ty(b.locals()).ok().map(|t| n(self.ty(t) as i128)).unwrap_or(J::Null);
                a(vec![s("switch"), self.operand(discr), a(br), n(targets.otherwise() as i128), ty, sp])
            }
            TerminatorKind::Resume => a(vec![s("resume")]),
            TerminatorKind::Abort => a(vec![s("abort")]),
            TerminatorKind::Return => a(vec![s("return")]),
            TerminatorKind::Unreachable => a(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, .. } => {
                let mut f = J::Null;
                if let Ok(ty) = place.ty(b.locals()) {
                    let i = Instance::resolve_drop_in_place(ty);
                    if !i.is_empty_shim() && self.user_drop(ty, 0) {
                        f = n(self.inst(i) as i128);
                    }
                }
                a(vec![s("drop"), self.place(place), n(*target as i128), f])
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let mut callee = J::Null;
                if let Ok(ty) = func.ty(b.locals()) {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, g)) = ty.kind() {
                        if let Ok(i) = Instance::resolve(d, &g) {
                            callee = n(self.inst(i) as i128);
                        } else {
                            callee = s(format!("{:?}", d.name()));
                        }
                    }
                }
                let f = if callee == J::Null { self.operand(func) } else { J::Null };
                let os: Vec<J> = args.iter().map(|o| self.operand(o)).collect();
                a(vec![
                    s("call"),
                    callee,
                    f,
                    a(os),
                    self.place(destination),
                    target.map(|t| n(t as i128)).unwrap_or(J::Null),
                    sp,
                    cleanup(unwind),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let mut m = format!("{:?}", msg);
                m.truncate(60);
                let m = m.split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string();
                a(vec![s("assert"), self.operand(cond), J::B(*expected), s(m), n(*target as i128), sp])
            }
            TerminatorKind::InlineAsm { .. } => a(vec![s("asm")]),
        }
    }

    /// Whether dropping `ty` may run a `Drop` implementation outside the standard library.
    fn user_drop(&mut self, ty: Ty, depth: usize) -> bool {
        if depth > 6 {
            return false;
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let krate = def.krate().name.to_string();
                let std = ["std", "core", "alloc"].contains(&&*krate);
                if !std && (krate.starts_with("oauth") || krate == "witness") {
                    return true;
                }
                if std {
                    // guards give back what they hold
                    let name = def.name().to_string();
                    if ["Guard", "cell::Ref", "cell::RefMut", "cell::BorrowRef", "cell::BorrowRefMut"].iter().any(|x| name.ends_with(x)) {
                        return true;
                    }
                    return args.0.iter().filter_map(|g| g.ty().copied()).collect::<Vec<_>>().into_iter().any(|t| self.user_drop(t, depth + 1));
                }
                false
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.into_iter().any(|t| self.user_drop(t, depth + 1)),
            TyKind::RigidTy(RigidTy::Closure(..)) => true,
            _ => false,
        }
    }
}

fn erase_arg(g: &GenericArgKind) -> GenericArgKind {
    match g {
        GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
        GenericArgKind::Type(t) => GenericArgKind::Type(erase(*t)),
        _ => g.clone(),
    }
}

fn erase(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Tuple(ts)) => Ty::from_rigid_kind(RigidTy::Tuple(ts.into_iter().map(erase).collect())),
        TyKind::RigidTy(RigidTy::Ref(_, t, m)) => Ty::from_rigid_kind(RigidTy::Ref(Region { kind: RegionKind::ReErased }, erase(t), m)),
        TyKind::RigidTy(RigidTy::Adt(d, args)) if !args.0.is_empty() => Ty::from_rigid_kind(RigidTy::Adt(d, GenericArgs(args.0.iter().map(erase_arg).collect()))),
        _ => t,
    }
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(def, args)) if def.is_box() => args.0.iter().find_map(|g| g.ty().copied()),
        _ => None,
    }
}

fn hex(al: &Allocation, off: usize, len: usize) -> String {
    let mut o = String::with_capacity(len * 2);
    for i in 0..len {
        match al.bytes.get(off + i) {
            Some(Some(b)) => o.push_str(&format!("{:02x}", b)),
            _ => o.push_str("??"),
        }
    }
    o
}

fn dump() -> ControlFlow<()> {
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with("##")).collect())
        .unwrap_or_default();
    // `!PREFIX` lifts a `PREFIX*` line.
    let (keep, stop): (Vec<_>, Vec<_>) = stop.into_iter().partition(|p| p.starts_with('!'));
    let keep = keep.into_iter().map(|p| p[1..].to_string()).collect();
    let (pats, exact): (Vec<_>, Vec<_>) = stop.into_iter().partition(|p| p.ends_with('*'));
    let mut cx = Cx {
        types: vec![],
        ty_ids: HashMap::new(),
        fns: vec![],
        fn_ids: HashMap::new(),
        queue: VecDeque::new(),
        vtables: HashMap::new(),
        vtable_js: vec![],
        stop: pats,
        keep,
        stop_exact: exact.into_iter().collect(),
        shims: HashMap::new(),
        files: vec![],
        file_ids: HashMap::new(),
    };
    // Stand-ins: a table `NAME => witness function` in MIRDUMP_SHIMS.
    if let Some(t) = std::env::var("MIRDUMP_SHIMS").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        let local = rustc_public::local_crate();
        let defs: HashMap<String, FnDef> = local.fn_defs().into_iter().map(|d| (d.name().to_string(), d)).collect();
        for l in t.lines() {
            if let Some((from, to)) = l.split_once(" => ") {
                match defs.get(to.trim()) {
                    Some(d) => {
                        cx.shims.insert(from.trim().to_string(), *d);
                    }
                    None => eprintln!("mirdump: no stand-in {to}"),
                }
            }
        }
    }
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let name = it.name().to_string();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("e_") && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                let id = cx.inst(i);
                roots.push(a(vec![s(last), n(id as i128)]));
            }
        }
    }
    while let Some((id, i)) = cx.queue.pop_front() {
        let j = cx.dump_fn(i);
        cx.fns[id] = j;
    }
    let out = J::O(vec![
        ("roots", a(roots)),
        ("types", a(cx.types)),
        ("fns", a(cx.fns)),
        ("vtables", a(cx.vtable_js)),
        ("files", a(cx.files.into_iter().map(s).collect())),
    ]);
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut buf = String::new();
    out.write(&mut buf);
    std::fs::write(path, buf).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // Cargo calls `mirdump /path/to/rustc ARGS`.
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if !is_target {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(0);
    let r = run!(&args, dump);
    match r {
        Ok(_) => (),
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
