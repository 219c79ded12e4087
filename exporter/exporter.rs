// Dumps the MIR of every dendron function (instantiated at `Opaque`) and of all
// functions reachable from them, as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::crate_def::CrateDef;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::target::MachineSize as Size;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<Option<String>>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    fns: Vec<String>,
}

fn sp(s: &Span) -> String {
    let l = s.get_lines();
    let f = s.get_filename().to_string();
    let f = match f.rfind("/src/") {
        Some(i) => f[i + 1..].to_string(),
        None => f,
    };
    q(&format!("{}:{}", f, l.start_line))
}

impl Cx {
    fn inst(&mut self, i: Instance) -> String {
        let k = i.mangled_name().to_string();
        if self.seen.insert(k.clone()) {
            self.queue.push_back(i);
        }
        q(&k)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(None);
        let s = self.ty_str(t);
        self.ty_out[id] = Some(s);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(q(&format!("{c:?}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn ty_str(&mut self, t: Ty) -> String {
        let name = q(&format!("{t}"));
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return format!("{{\"k\":\"other\",\"name\":{name}}}"),
        };
        let r0 = r.clone();
        let body = match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"b\":{},\"s\":1", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"b\":{},\"s\":0", i.num_bytes() * 8),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Array(t, c) => {
                let n = c.eval_target_usize().map(|v| v as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"to\":{},\"n\":{n}", self.ty(t))
            }
            RigidTy::Slice(t) => format!("\"k\":\"slice\",\"to\":{}", self.ty(t)),
            RigidTy::RawPtr(t, m) => {
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(t), (m == Mutability::Mut) as u8)
            }
            RigidTy::Ref(_, t, m) => {
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(t), (m == Mutability::Mut) as u8)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":{}", arr(v))
            }
            RigidTy::FnDef(d, a) => {
                let i = match Instance::resolve(d, &a) {
                    Ok(i) => self.inst(i),
                    Err(_) => "null".into(),
                };
                format!("\"k\":\"fndef\",\"inst\":{i}")
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(d, a) => {
                // Upvar tuple is the last generic argument.
                let up = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                    _ => "null".into(),
                };
                // A closure that only leaf code calls is exported all the same.
                if d.name().contains("dendron::") && a.0.len() >= 3 {
                    let k = match &a.0[a.0.len() - 3] {
                        GenericArgKind::Type(t) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => Some(ClosureKind::Fn),
                            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => Some(ClosureKind::FnMut),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(Ok(i)) = k.map(|k| Instance::resolve_closure(d, &a, k)) {
                        self.inst(i);
                    }
                }
                format!("\"k\":\"closure\",\"def\":{},\"up\":{up}", q(&d.name()))
            }
            RigidTy::Adt(d, a) => {
                let kind = match d.kind() {
                    AdtKind::Struct => "struct",
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                };
                let args = self.args(&a);
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(format!("[{},{}]", q(&f.name), self.ty(ft)));
                    }
                    let dv = if d.kind() == AdtKind::Enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!("{{\"n\":{},\"d\":{dv},\"f\":{}}}", q(&v.name()), arr(fs)));
                }
                format!(
                    "\"k\":\"adt\",\"kind\":\"{kind}\",\"def\":{},\"args\":{args},\"v\":{}",
                    q(&d.name()),
                    arr(vs)
                )
            }
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
            RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"to\":{}", self.ty(t)),
            _ => "\"k\":\"other\"".into(),
        };
        let lay = match &r0 {
            RigidTy::Tuple(_) | RigidTy::Adt(..) => self.layout(t),
            _ => String::new(),
        };
        format!("{{{body}{lay},\"name\":{name}}}")
    }

    /// Where the fields lie, for reading constants.
    fn layout(&self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return String::new() };
        let l = l.shape();
        let by = |v: &Vec<Size>| arr(v.iter().map(|s| s.bytes().to_string()).collect::<Vec<_>>());
        let off = match &l.fields {
            FieldsShape::Arbitrary { offsets } => offsets.clone(),
            _ => return String::new(),
        };
        match &l.variants {
            VariantsShape::Single { index } => {
                format!(",\"lay\":{{\"sz\":{},\"one\":{},\"off\":{}}}", l.size.bytes(), index.to_index(), by(&off))
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let p = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                };
                let sz = match p {
                    Primitive::Int { length, .. } => length.bits() / 8,
                    _ => 8,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},\"{niche_start}\"]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index()
                    ),
                };
                let vs = arr(variants.iter().map(|v| by(&v.offsets)).collect::<Vec<_>>());
                format!(
                    ",\"lay\":{{\"sz\":{},\"tag\":[{},{sz}],\"niche\":{enc},\"voff\":{vs}}}",
                    l.size.bytes(),
                    off[*tag_field].bytes()
                )
            }
            _ => String::new(),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty(*t)),
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", i.to_index()),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{offset},{}]", *from_end as u8)
                }
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
                _ => "\"?\"".into(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn alloc(&mut self, a: &Allocation, depth: usize) -> String {
        let bytes: Vec<String> =
            a.bytes.iter().map(|b| b.map_or("null".into(), |b| b.to_string())).collect();
        let mut prov = vec![];
        if depth < 4 {
            for (off, p) in &a.provenance.ptrs {
                let g = GlobalAlloc::from(p.0);
                let s = match g {
                    GlobalAlloc::Memory(m) => self.alloc(&m, depth + 1),
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => "null".into(),
                };
                prov.push(format!("[{off},{s}]"));
            }
        }
        let bs = if bytes.len() > 256 { "null".to_string() } else { arr(bytes) };
        format!("{{\"b\":{},\"p\":{}}}", bs, arr(prov))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", q(&format!("{r:?}"))),
            Operand::Constant(c) => {
                let t = self.ty(c.ty());
                let s = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.alloc(a, 0),
                    ConstantKind::ZeroSized => "\"zst\"".into(),
                    ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                        Ok(v) => format!("{{\"v\":{v}}}"),
                        _ => "null".into(),
                    },
                    k => format!("{{\"u\":{}}}", q(&format!("{k:?}"))),
                };
                format!("[\"const\",{t},{s}]")
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => {
                format!("[\"addr\",{},{}]", (m.to_mutable_lossy() == Mutability::Mut) as u8, self.place(p))
            }
            Rvalue::Ref(_, b, p) => {
                format!("[\"ref\",{},{}]", (b.to_mutable_lossy() == Mutability::Mut) as u8, self.place(p))
            }
            Rvalue::Reborrow(t, m, p) => {
                let _ = t;
                format!("[\"reborrow\",{},{}]", (*m == Mutability::Mut) as u8, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            f.map_or("null".into(), |f| f.to_string())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"?\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{ks},{}]", arr(v))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{u:?}\",{}]", self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", q(&format!("{k:?}")), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(o)),
            Rvalue::ThreadLocalRef(_) => "[\"?\"]".into(),
        }
    }

    fn body(&mut self, i: Instance, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let k = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), sp(&s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{l}]"),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{}]", self.operand(o))
                    }
                    StatementKind::Intrinsic(_) => "[\"?\"]".into(),
                    _ => continue,
                };
                st.push(k);
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).unwrap();
                    let di = Instance::resolve_drop_in_place(t);
                    let d = if di.is_empty_shim() { "null".into() } else { self.inst(di) };
                    format!("[\"drop\",{},{target},{d},{}]", self.place(place), self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).unwrap();
                    let callee = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => self.inst(i),
                            Err(_) => "null".into(),
                        },
                        _ => "null".into(),
                    };
                    let v: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!(
                        "[\"call\",{callee},{},{},{},{}]",
                        arr(v),
                        self.place(destination),
                        target.map_or("null".into(), |t| t.to_string()),
                        self.operand(func)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg.description() {
                        Ok(s) => s.to_string(),
                        Err(_) => format!("{msg:?}"),
                    };
                    format!(
                        "[\"assert\",{},{},{},{target}]",
                        self.operand(cond),
                        *expected as u8,
                        q(&m)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"?\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{t},\"l\":{}}}",
                arr(st),
                sp(&bb.terminator.source_info.span)
            ));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                dbg.push(format!("[{},{l}]", q(&v.name)));
            }
        }
        let _ = i;
        format!(
            "\"locals\":{},\"argc\":{},\"spread\":{},\"dbg\":{},\"span\":{},\"blocks\":{}",
            arr(locals),
            b.arg_locals().len(),
            b.spread_arg().map_or("null".into(), |l| l.to_string()),
            arr(dbg),
            sp(&b.span),
            arr(blocks)
        )
    }

    fn emit(&mut self, i: Instance) {
        let key = i.mangled_name().to_string();
        let name = i.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
            _ => "other",
        };
        let dname = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let args = self.args(&i.args());
        let opaque = name.starts_with("<Opaque ")
            || name.starts_with("<EvIter as std::iter::Iterator>::next")
            || name.starts_with("<DftIter as std::iter::Iterator>::next")
            || dname.contains("opaque_fn");
        let body = if opaque || skip(&dname) || kind == "virtual" { None } else { i.body() };
        let b = match &body {
            Some(b) => self.body(i, b),
            None => "\"blocks\":null".into(),
        };
        let mut clos = vec![];
        for g in &i.args().0 {
            if let GenericArgKind::Type(t) = g {
                let r = match t.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok(),
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => Instance::resolve(d, &a).ok(),
                    _ => None,
                };
                if let Some(r) = r {
                    if b.ends_with("null") {
                        clos.push(self.inst(r));
                    }
                }
            }
        }
        let intr = i.intrinsic_name().map_or("null".into(), |s| q(&s));
        self.fns.push(format!(
            "{}:{{\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{kind}\",\"args\":{args},\"clos\":{},\"intr\":{intr},{b}}}",
            q(&key),
            q(&name),
            q(&dname),
            q(&krate),
            arr(clos)
        ));
    }
}

/// Functions whose bodies are never needed: formatting and panicking machinery,
/// and the primitives the verifier axiomatizes.
fn skip(d: &str) -> bool {
    const P: &[&str] = &[
        "std::fmt::", "core::fmt::", "std::panicking::", "core::panicking::", "std::rc::", "alloc::rc::",
        "std::cell::", "core::cell::", "std::alloc::", "alloc::alloc::", "std::collections::",
        "alloc::collections::", "std::vec::", "alloc::vec::", "std::boxed::", "std::string::", "std::mem::replace",
        "std::mem::swap", "std::num::", "core::num::",
    ];
    P.iter().any(|p| d.starts_with(p) || d.starts_with(&format!("<{p}")))
}

fn find_ty(name: &str) -> Ty {
    for it in rustc_public::all_local_items() {
        let _ = it;
    }
    for f in rustc_public::local_crate().fn_defs() {
        // `opaque_fn(Opaque)`, and the iterators' `next(&mut Self)`.
        let sig = f.fn_sig();
        let sig = sig.skip_binder();
        for t in sig.inputs() {
            let mut t = *t;
            if let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() {
                t = u;
            }
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() {
                if d.trimmed_name() == name {
                    return t;
                }
            }
        }
    }
    panic!("{name}");
}

fn go() {
    let op = find_ty("Opaque");
    let evi = find_ty("EvIter");
    let dfti = find_ty("DftIter");
    let mut cx = Cx::default();
    let mut roots = vec![];
    let mut crates = rustc_public::find_crates("dendron");
    crates.push(rustc_public::local_crate());
    for c in crates {
        for f in c.fn_defs() {
            let name = f.name().to_string();
            let t = f.ty();
            let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() else { continue };
            let mut ok = true;
            let mut v = vec![];
            for g in &a.0 {
                v.push(match g {
                    GenericArgKind::Type(t) => match t.kind() {
                        TyKind::Param(p) if p.name == "T" || p.name == "U" => GenericArgKind::Type(op),
                        TyKind::Param(p) if p.name == "I" => {
                            if name.contains("push_events") {
                                GenericArgKind::Type(evi)
                            } else if name.contains("push_dft_events") {
                                GenericArgKind::Type(dfti)
                            } else if name.contains("from_iter") {
                                GenericArgKind::Type(dfti)
                            } else {
                                ok = false;
                                g.clone()
                            }
                        }
                        TyKind::Param(_) => {
                            ok = false;
                            g.clone()
                        }
                        _ => g.clone(),
                    },
                    GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                    GenericArgKind::Const(_) => {
                        ok = false;
                        g.clone()
                    }
                });
            }
            if !ok {
                eprintln!("skip {name}");
                continue;
            }
            match Instance::resolve(d, &GenericArgs(v.clone())) {
                Ok(mut i) => {
                    // which events `from_iter` takes shows in the name of the trait only
                    if i.name().contains("serial::Event<") && i.name().contains("FromIterator<") && i.name().contains("from_iter") {
                        for g in v.iter_mut() {
                            if *g == GenericArgKind::Type(dfti) {
                                *g = GenericArgKind::Type(evi);
                            }
                        }
                        i = Instance::resolve(d, &GenericArgs(v)).unwrap();
                    }
                    if i.name().contains("fmt::") || i.name().contains("debug_print") {
                        continue;
                    }
                    let k = cx.inst(i);
                    roots.push(k);
                }
                Err(e) => eprintln!("unresolved {name}: {e:?}"),
            }
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        cx.emit(i);
    }
    let tys = arr(cx.ty_out.iter().map(|t| t.clone().unwrap()));
    let out = format!("{{\"types\":{tys},\n\"roots\":{},\n\"fns\":{{{}}}}}\n", arr(roots), cx.fns.join(",\n"));
    std::fs::write(std::env::var("DRV_OUT").unwrap(), out).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r: Result<(), rustc_public::CompilerError<()>> = rustc_public::run!(&args, || -> ControlFlow<()> {
        go();
        ControlFlow::Continue(())
    });
    if r.is_err() {
        std::process::exit(1);
    }
}
