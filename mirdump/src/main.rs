//! rustc driver: dumps the monomorphic MIR of every function reachable from the crate's own
//! non-generic functions as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.  Nothing is rewritten: the
//! JSON is a one-to-one rendering of rustc_public's Body (spans and cleanup blocks are kept but unused).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Primitive, Scalar};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

struct Ctx {
    tys: Vec<String>,
    ty_ix: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<Instance>,
    ids: HashMap<Instance, String>,
    names: HashMap<String, usize>,
    opaque: Vec<String>,
    force: Vec<String>,
    out: Vec<String>,
    derived: Box<dyn Fn(rustc_public::DefId) -> bool>,
}

impl Ctx {
    fn inst_id(&mut self, i: Instance) -> String {
        if let Some(s) = self.ids.get(&i) { return s.clone(); }
        let base = i.name().to_string();
        let n = self.names.entry(base.clone()).or_insert(0);
        let id = if *n == 0 { base } else { format!("{}#{}", base, n) };
        *n += 1;
        self.ids.insert(i, id.clone());
        id
    }
    fn want(&mut self, i: Instance) -> String {
        let id = self.inst_id(i);
        if self.seen.insert(i) { self.queue.push_back(i); }
        id
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ix.get(&t) { return *i; }
        let ix = self.tys.len();
        self.ty_ix.insert(t, ix);
        self.tys.push(String::new());
        let s = self.ty_json(t);
        self.tys[ix] = s;
        ix
    }
    fn targs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!("{{\"const\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
                _ => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let name = js(&format!("{}", t));
        let k = t.kind();
        let r = match k.rigid() { Some(r) => r.clone(), None => return format!("{{\"k\":\"other\",\"name\":{}}}", name) };
        match r {
            RigidTy::Bool => format!("{{\"k\":\"bool\"}}"),
            RigidTy::Char => format!("{{\"k\":\"char\"}}"),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true,\"name\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false,\"name\":{}}}", i.num_bytes() * 8, name),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"name\":{}}}", name),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => { let e = self.ty(e); format!("{{\"k\":\"array\",\"elem\":{},\"len\":{}}}", e, n.eval_target_usize().unwrap_or(0)) }
            RigidTy::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"elem\":{}}}", e) }
            RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"elem\":{},\"mut\":{}}}", e, m == Mutability::Mut) }
            RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"elem\":{},\"mut\":{}}}", e, m == Mutability::Mut) }
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"elems\":{}}}", arr(v)) }
            RigidTy::Adt(d, args) => {
                let a = self.targs(&args);
                let dn = js(&d.name());
                let kind = if d.kind() == AdtKind::Enum { "enum" } else if d.kind() == AdtKind::Union { "union" } else { "struct" };
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let fi = self.ty(ft);
                        fs.push(format!("[{},{}]", js(&f.name), fi));
                    }
                    let discr = if kind == "enum" { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(&v.name()), discr, arr(fs)));
                }
                format!("{{\"k\":\"adt\",\"adt\":{},\"kind\":\"{}\",\"def\":{},\"args\":{},\"variants\":{}}}", name, kind, dn, a, arr(vs))
            }
            RigidTy::FnDef(d, args) => {
                let id = match Instance::resolve(d, &args) { Ok(i) => js(&self.inst_id(i)), Err(_) => "null".into() };
                format!("{{\"k\":\"fndef\",\"name\":{},\"inst\":{}}}", name, id)
            }
            RigidTy::Closure(d, args) => {
                let id = match Instance::resolve_closure(d, &args, ClosureKind::FnOnce) { Ok(_) => (), Err(_) => () };
                let _ = id;
                // body of the closure itself: resolve for every kind is the same body except FnOnce shim
                let mut inst = "null".to_string();
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(d, &args, k) {
                        if i.kind == InstanceKind::Item { inst = js(&self.want(i)); break; }
                    }
                }
                format!("{{\"k\":\"closure\",\"def\":{},\"inst\":{}}}", js(&d.name()), inst)
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{}}}", name),
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"name\":{}}}", name),
            _ => format!("{{\"k\":\"other\",\"name\":{}}}", name),
        }
    }

    fn read(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> { a.read_partial_uint(off..off + n).ok() }
    fn prov(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| GlobalAlloc::from(p.0))
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 { return "{\"v\":\"unknown\"}".into(); }
        self.decode_opt(t, a, off, depth).unwrap_or_else(|| "{\"v\":\"unknown\"}".into())
    }
    fn decode_opt(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        let k = t.kind();
        let r = k.rigid()?.clone();
        let ti = self.ty(t);
        Some(match r {
            RigidTy::Bool => format!("{{\"v\":\"bool\",\"x\":{}}}", self.read(a, off, 1)? != 0),
            RigidTy::Char => format!("{{\"v\":\"int\",\"ty\":{},\"x\":\"{}\"}}", ti, self.read(a, off, 4)?),
            RigidTy::Uint(u) => format!("{{\"v\":\"int\",\"ty\":{},\"x\":\"{}\"}}", ti, self.read(a, off, u.num_bytes())?),
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                let x = self.read(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                let y = ((x << sh) as i128) >> sh;
                format!("{{\"v\":\"int\",\"ty\":{},\"x\":\"{}\"}}", ti, y)
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let ek = e.kind();
                let er = ek.rigid()?.clone();
                let g = self.prov(a, off)?;
                let base = self.read(a, off, 8)? as usize;
                let inner = match g {
                    GlobalAlloc::Memory(al) => al,
                    GlobalAlloc::Static(s) => s.eval_initializer().ok()?,
                    _ => return None,
                };
                match er {
                    RigidTy::Str => {
                        let len = self.read(a, off + 8, 8)? as usize;
                        let b: Option<Vec<u8>> = inner.bytes[base..base + len].iter().copied().collect();
                        format!("{{\"v\":\"str\",\"x\":{}}}", js(&String::from_utf8_lossy(&b?)))
                    }
                    RigidTy::Slice(el) => {
                        let len = self.read(a, off + 8, 8)? as usize;
                        if len > 4096 { return None; }
                        let sz = el.layout().ok()?.shape().size.bytes();
                        let mut v = vec![];
                        for i in 0..len { v.push(self.decode(el, &inner, base + i * sz, depth + 1)); }
                        format!("{{\"v\":\"ref\",\"ty\":{},\"x\":{{\"v\":\"array\",\"elem\":{},\"x\":{}}}}}", ti, { self.ty(el) }, arr(v))
                    }
                    _ => { let x = self.decode(e, &inner, base, depth + 1); format!("{{\"v\":\"ref\",\"ty\":{},\"x\":{}}}", ti, x) }
                }
            }
            RigidTy::Array(el, n) => {
                let len = n.eval_target_usize().ok()? as usize;
                if len > 4096 { return None; }
                let sz = el.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(el, a, off + i * sz, depth + 1)); }
                format!("{{\"v\":\"array\",\"elem\":{},\"x\":{}}}", self.ty(el), arr(v))
            }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match sh.fields { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![rustc_public::target::MachineSize::from_bits(0); ts.len()] };
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() { v.push(self.decode(*e, a, off + offs[i].bytes(), depth + 1)); }
                format!("{{\"v\":\"agg\",\"ty\":{},\"variant\":0,\"x\":{}}}", ti, arr(v))
            }
            RigidTy::Closure(..) | RigidTy::FnDef(..) => format!("{{\"v\":\"zst\",\"ty\":{}}}", ti),
            RigidTy::Adt(d, args) => {
                if d.kind() == AdtKind::Union { return None; }
                let sh = t.layout().ok()?.shape();
                let (vi, offs): (usize, Vec<_>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let offs = match sh.fields.clone() { FieldsShape::Arbitrary { offsets } => offsets, _ => vec![] };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field], _ => rustc_public::target::MachineSize::from_bits(0) };
                        let tn = scalar_bytes(tag)?;
                        // a tag location holding a pointer (niche in a reference) is "not null"
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff.bytes());
                        let raw = self.read(a, off + toff.bytes(), tn)?;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                let mask = if tn == 16 { u128::MAX } else { (1u128 << (8 * tn)) - 1 };
                                for v in d.variants_iter() {
                                    if d.discriminant_for_variant(v.idx()).val & mask == raw { found = Some(v.idx().to_index()); }
                                }
                                let i = found?;
                                (i, variants[i].offsets.clone())
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tn == 16 { u128::MAX } else { (1u128 << (8 * tn)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                let i = if !has_prov && rel <= (hi - lo) as u128 { lo + rel as usize } else { untagged_variant.to_index() };
                                (i, variants[i].offsets.clone())
                            }
                        }
                    }
                    _ => return None,
                };
                let v = d.variants()[vi];
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0);
                    fs.push(self.decode(ft, a, off + o, depth + 1));
                }
                format!("{{\"v\":\"agg\",\"ty\":{},\"variant\":{},\"x\":{}}}", ti, vi, arr(fs))
            }
            _ => return None,
        })
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
            return match Instance::resolve(d, &args) {
                Ok(i) => { let id = self.want(i); format!("{{\"v\":\"fn\",\"ty\":{},\"inst\":{}}}", ti, js(&id)) }
                Err(_) => format!("{{\"v\":\"fn\",\"ty\":{},\"inst\":null}}", ti),
            };
        }
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => format!("{{\"v\":\"zst\",\"ty\":{}}}", ti),
            k => format!("{{\"v\":\"unknown\",\"dbg\":{}}}", js(&format!("{:?}", k))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"opaque\"]".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"const\",{\"v\":\"bool\",\"x\":false}]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(b, x) => format!("[\"un\",\"{:?}\",{}]", b, self.op(x)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, args, _, _) => format!("[\"adt\",{},{}]", { let t = d.ty_with_args(args); self.ty(t) }, vi.to_index()),
                    AggregateKind::Closure(d, args) => format!("[\"closure\",{}]", { let t = Ty::new_closure(*d, args.clone()); self.ty(t) }),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let dbg: Vec<String> = b.var_debug_info.iter().filter_map(|d| d.local().map(|l| format!("[{},{}]", l, js(&d.name)))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"=\",{},{}]", self.place(p), self.rvalue(r))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[\"unsupported\",\"copy_nonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let sp = bb.terminator.source_info.span;
            let li = sp.get_lines();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.op(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    format!("[\"call\",{},{},{},{}]", self.op(func), arr(a), self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(b, ..) => format!("overflow {:?}", b),
                        AssertMessage::OverflowNeg(_) => "overflow Neg".into(),
                        AssertMessage::DivisionByZero(_) => "division by zero".into(),
                        AssertMessage::RemainderByZero(_) => "remainder by zero".into(),
                        m => format!("{:?}", m),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, js(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"line\":{}}}", arr(st), t, li.start_line));
        }
        format!("\"argc\":{},\"locals\":{},\"dbg\":{},\"spread\":{},\"blocks\":{}", b.arg_locals().len(), arr(locals), arr(dbg),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(blocks))
    }
    fn instance(&mut self, i: Instance) {
        let id = self.inst_id(i);
        let name = i.name().to_string();
        let intr = i.intrinsic_name().map(|s| js(&s.to_string())).unwrap_or("null".into());
        let def = js(&i.def.name());
        let t = self.ty(i.ty());
        let targs = { let a = i.args(); self.targs(&a) };
        let krate = i.def.krate();
        let foreign = !krate.is_local && !["core", "alloc", "std"].contains(&krate.name.as_str());
        let opaque = (foreign || self.opaque.iter().any(|p| name.contains(p.as_str()))) && !self.force.iter().any(|p| name.contains(p.as_str()));
        let sp = i.def.span();
        let file = js(&sp.get_filename());
        let mut s = format!("{{\"id\":{},\"name\":{},\"def\":{},\"ty\":{},\"targs\":{},\"intrinsic\":{},\"kind\":{},\"local\":{},\"file\":{},\"line\":{}",
            js(&id), js(&name), def, t, targs, intr, js(&format!("{:?}", i.kind)), i.def.krate().is_local, file, sp.get_lines().start_line);
        if let Ok(abi) = i.fn_abi() {
            let a: Vec<String> = abi.args.iter().map(|x| self.ty(x.ty).to_string()).collect();
            let r = self.ty(abi.ret.ty);
            s.push_str(&format!(",\"sig\":[{},{}]", arr(a), r));
        }
        if i.def.krate().is_local && (self.derived)(i.def.def_id()) { s.push_str(",\"derived\":true"); }
        if !opaque || i.def.krate().is_local {
            if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
                if let Some(b) = i.body() {
                    let bs = self.body(&b);
                    s.push(',');
                    s.push_str(&bs);
                }
            }
        }
        s.push('}');
        self.out.push(s);
    }
}

fn scalar_bytes(s: &Scalar) -> Option<usize> {
    let p = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    Some(match p {
        Primitive::Int { length, .. } => match format!("{:?}", length).as_str() { "I8" => 1, "I16" => 2, "I32" => 4, "I64" => 8, _ => 16 },
        Primitive::Pointer(_) => 8,
        Primitive::Float { .. } => return None,
    })
}
trait Idx { fn to_index(&self) -> usize; }
impl Idx for VariantIdx {
    fn to_index(&self) -> usize { rustc_public_bridge::IndexedVal::to_index(self) }
}
trait Bytes { fn bytes(&self) -> usize; }
impl Bytes for usize { fn bytes(&self) -> usize { *self } }
impl Bytes for rustc_public::target::MachineSize { fn bytes(&self) -> usize { rustc_public::target::MachineSize::bytes(*self) } }

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let opaque: Vec<String> = std::env::var("MIRDUMP_OPAQUE").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(String::from).collect();
    let force: Vec<String> = std::env::var("MIRDUMP_FORCE").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(String::from).collect();
    let mut c = Ctx { tys: vec![], ty_ix: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), ids: HashMap::new(), names: HashMap::new(), opaque, force, out: vec![], derived: Box::new(|_| false) };
    // functions of impls written by #[derive]
    let mut der: HashSet<String> = HashSet::new();
    for did in tcx.hir_crate_items(()).definitions() {
        let did = did.to_def_id();
        if let Some(im) = tcx.impl_of_assoc(did) {
            if tcx.is_automatically_derived(im) { der.insert(format!("{:?}", rustc_public::rustc_internal::stable(did))); }
        }
    }
    let mut consts = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Const) || it.requires_monomorphization() { continue; }
        let did = rustc_public::rustc_internal::internal(tcx, it.def_id());
        if let Ok(cv) = tcx.const_eval_poly(did) {
            let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let k = rustc_public::rustc_internal::stable(rustc_middle::mir::Const::Val(cv, ty));
            let v = c.constant(&k);
            consts.push(format!("{}:{}", js(&it.name()), v));
        }
    }
    c.derived = Box::new(move |d| der.contains(&format!("{:?}", d)));
    let mut roots = vec![];
    let mut skipped = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) { continue; }
        if it.requires_monomorphization() { skipped.push(js(&it.name())); continue; }
        if let Ok(i) = Instance::try_from(it) { roots.push(js(&c.want(i))); }
    }
    while let Some(i) = c.queue.pop_front() {
        if c.out.len() > 20000 { break; }
        c.instance(i);
    }
    let krate = rustc_public::local_crate().name;
    let s = format!("{{\"crate\":{},\"consts\":{{{}}},\"roots\":{},\"generic\":{},\"types\":{},\"fns\":{}}}", js(&krate), consts.join(","), arr(roots), arr(skipped), arr(c.tys.clone()), format!("[{}]", c.out.join(",\n")));
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(&path, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) { if w[0] == "--crate-name" && w[1] == want { is = true; } }
    let test = args.iter().any(|a| a == "--test");
    if !is || test {
        let _: Result<(), _> = run!(&args, || ControlFlow::<(), ()>::Continue(()));
        return;
    }
    for a in ["-Zmir-opt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Zub-checks=no", "-Zalways-encode-mir"] { args.push(a.into()); }
    let r: Result<(), _> = run_with_tcx!(&args, analyze);
    if r.is_err() { std::process::exit(1); }
}
