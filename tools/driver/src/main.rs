// Dumps the type-checked, monomorphised MIR of the analysed crate (and of the generic std bodies it
// instantiates) as JSON.  One JSON object per line:
//   {"k":"ty",...}  {"k":"alloc",...}  {"k":"fn",...}  {"k":"const",...}
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
#[allow(unused_imports)]
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    out: Box<dyn std::io::Write>,
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<Ty>,
    fns: HashSet<String>,
    fnq: VecDeque<Instance>,
    allocs: HashSet<usize>,
    allocq: VecDeque<AllocId>,
    aids: Vec<AllocId>,
}

impl<'tcx> Cx<'tcx> {
    fn line(&mut self, s: String) { self.out.write_all(s.as_bytes()).unwrap(); self.out.write_all(b"\n").unwrap(); }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back(t);
        i
    }
    fn aid(&mut self, a: AllocId) -> usize {
        let i = match self.aids.iter().position(|x| *x == a) { Some(i) => i, None => { self.aids.push(a); self.aids.len() - 1 } };
        if self.allocs.insert(i) { self.allocq.push_back(a); }
        i
    }
    fn fields_shape(&self, f: &FieldsShape) -> String {
        match f {
            FieldsShape::Primitive => "null".into(),
            FieldsShape::Arbitrary { offsets } => arr(offsets.iter(), |o| o.bytes().to_string()),
            FieldsShape::Array { .. } => "null".into(),
            FieldsShape::Union(_) => "\"union\"".into(),
        }
    }
    fn layout(&self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let s = l.shape();
                let vs = match &s.variants {
                    VariantsShape::Empty => "null".to_string(),
                    VariantsShape::Single { .. } => "null".to_string(),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "\"direct\"".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } =>
                                format!("[{},{},{},\"{}\"]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                        };
                        let tsz = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                        format!("{{\"enc\":{},\"tf\":{},\"tag\":{},\"v\":{}}}", enc, tag_field, esc(&format!("{:?}", tsz)),
                            arr(variants.iter(), |v| arr(v.offsets.iter(), |o| o.bytes().to_string())))
                    }
                };
                format!("{{\"size\":{},\"f\":{},\"vs\":{}}}", s.size.bytes(), self.fields_shape(&s.fields), vs)
            }
            Err(_) => "null".into(),
        }
    }
    fn gargs(&mut self, g: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &g.0 {
            match a {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("const:{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into())))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn emit_ty(&mut self, t: Ty) {
        let id = self.ty(t);
        let name = esc(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"t\":\"bool\"".into(),
                RigidTy::Char => "\"t\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"t\":\"int\",\"bits\":{},\"s\":1", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"t\":\"int\",\"bits\":{},\"s\":0", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"t\":\"float\"".into(),
                RigidTy::Str => "\"t\":\"str\"".into(),
                RigidTy::Never => "\"t\":\"never\"".into(),
                RigidTy::Array(e, n) => {
                    let e2 = self.ty(e);
                    format!("\"t\":\"array\",\"e\":{},\"n\":{}", e2, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(e) => { let e2 = self.ty(e); format!("\"t\":\"slice\",\"e\":{}", e2) }
                RigidTy::RawPtr(e, m) => { let e2 = self.ty(e); format!("\"t\":\"ptr\",\"e\":{},\"mut\":{}", e2, (m == Mutability::Mut) as u8) }
                RigidTy::Ref(_, e, m) => { let e2 = self.ty(e); format!("\"t\":\"ref\",\"e\":{},\"mut\":{}", e2, (m == Mutability::Mut) as u8) }
                RigidTy::Tuple(ts) => { let v = arr(ts, |x| self.ty(x).to_string()); format!("\"t\":\"tuple\",\"f\":{}", v) }
                RigidTy::Adt(d, g) => {
                    let ga = self.gargs(&g);
                    let kind = if d.kind().is_enum() { "enum" } else if d.kind().is_union() { "union" } else { "struct" };
                    let mut vs = vec![];
                    for (vi, v) in d.variants().iter().enumerate() {
                        let dv = if d.kind().is_enum() { d.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.ty(f.ty_with_args(&g));
                            fs.push(format!("[{},{}]", esc(&f.name), ft));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", esc(&v.name()), dv, fs.join(",")));
                    }
                    format!("\"t\":\"adt\",\"kind\":\"{}\",\"def\":{},\"args\":{},\"v\":[{}]", kind, esc(&d.name()), ga, vs.join(","))
                }
                RigidTy::FnDef(d, g) => {
                    let ga = self.gargs(&g);
                    let r = match Instance::resolve(d, &g) { Ok(i) => { let m = i.mangled_name(); self.push_fn(i); esc(&m) } Err(_) => "null".into() };
                    format!("\"t\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}", esc(&d.name()), ga, r)
                }
                RigidTy::Closure(d, g) => {
                    let ga = self.gargs(&g);
                    let r = match Instance::resolve_closure(d, &g, ClosureKind::FnOnce) { Ok(i) => { let m = i.mangled_name(); self.push_fn(i); esc(&m) } Err(_) => "null".into() };
                    // The closure's own body (not a shim)
                    let r2 = match Instance::resolve_closure(d, &g, ClosureKind::Fn) { Ok(i) => { let m = i.mangled_name(); self.push_fn(i); esc(&m) } Err(_) => "null".into() };
                    format!("\"t\":\"closure\",\"def\":{},\"args\":{},\"inst_once\":{},\"inst\":{}", esc(&d.name()), ga, r, r2)
                }
                RigidTy::FnPtr(_) => "\"t\":\"fnptr\"".into(),
                RigidTy::Dynamic(..) => "\"t\":\"dyn\"".into(),
                _ => "\"t\":\"other\"".into(),
            },
            _ => "\"t\":\"param\"".into(),
        };
        let lay = self.layout(t);
        self.line(format!("{{\"k\":\"ty\",\"id\":{},\"name\":{},{},\"lay\":{}}}", id, name, body, lay));
    }
    fn push_fn(&mut self, i: Instance) {
        let m = i.mangled_name();
        if self.fns.insert(m) { self.fnq.push_back(i); }
    }
    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("[{},{},{}]", esc(&s.get_filename()), l.start_line, l.start_col)
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut s = String::new();
        s.push('"');
        for b in &a.bytes { match b { Some(x) => { let _ = write!(s, "{:02x}", x); } None => s.push_str("__") } }
        s.push('"');
        let p: Vec<String> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect::<Vec<_>>().into_iter().map(|(o, p)| format!("[{},{}]", o, self.aid(p))).collect();
        format!("{{\"b\":{},\"p\":[{}]}}", s, p.join(","))
    }
    fn emit_alloc(&mut self, a: AllocId) {
        let id = self.aid(a);
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => { let m = i.mangled_name(); self.push_fn(i); format!("\"fn\":{}", esc(&m)) }
            GlobalAlloc::VTable(t, _) => { let t = self.ty(t); format!("\"vt\":{}", t) }
            GlobalAlloc::Static(st) => {
                let t = self.ty(st.ty());
                let v = match st.eval_initializer() { Ok(al) => self.alloc(&al), Err(_) => "null".into() };
                format!("\"static\":{},\"ty\":{},\"a\":{}", esc(&st.name()), t, v)
            }
            GlobalAlloc::Memory(al) => { let v = self.alloc(&al); format!("\"a\":{}", v) }
            _ => "\"other\":1".into(),
        };
        self.line(format!("{{\"k\":\"alloc\",\"id\":{},{}}}", id, s));
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let v = self.alloc(a); format!("{{\"ty\":{},\"a\":{}}}", t, v) }
            ConstantKind::ZeroSized => format!("{{\"ty\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => format!("{{\"ty\":{},\"u\":\"{}\"}}", t, n), Err(_) => format!("{{\"ty\":{},\"x\":{}}}", t, esc(&format!("{:?}", tc))) },
            k => format!("{{\"ty\":{},\"x\":{}}}", t, esc(&format!("{:?}", k))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let v = arr(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, _) => format!("{}", i),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => format!("[\"c\",{},{}]", offset, *from_end as u8),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, *from_end as u8),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            e => format!("[\"?\",{}]", esc(&format!("{:?}", e))),
        });
        format!("[{},{}]", p.local, v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_)),
            #[allow(unreachable_patterns)]
            o => format!("{{\"x\":{}}}", esc(&format!("{:?}", o))),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, x, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(x), t) }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Aggregate(k, ops) => {
                let v = arr(ops.iter(), |o| self.op(o));
                let kk = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, g, _, fi) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, g.clone()));
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi.to_index(), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, g) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, g.clone()));
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
                };
                format!("[\"agg\",{},{}]", kk, v)
            }
            r => format!("[\"?\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn term(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b = arr(targets.branches(), |(v, t)| format!("[\"{}\",{}]", v, t));
                format!("[\"switch\",{},{},{}]", self.op(discr), b, targets.otherwise())
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
            TerminatorKind::Assert { cond, expected, msg, target, .. } =>
                format!("[\"assert\",{},{},{},{}]", self.op(cond), *expected as u8, esc(&format!("{:?}", msg).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()), target),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(locals).ok();
                let mut callee = "null".to_string();
                let mut extra = String::new();
                if let Some(ft) = fty {
                    match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, g)) => {
                            let ga = self.gargs(&g);
                            match Instance::resolve(d, &g) {
                                Ok(i) => {
                                    let kind = format!("{:?}", i.kind);
                                    callee = esc(&i.mangled_name());
                                    let _ = write!(extra, ",\"def\":{},\"args\":{},\"res\":{},\"ik\":{}", esc(&d.name()), ga, esc(&i.name()), esc(&kind));
                                    self.push_fn(i);
                                }
                                Err(_) => { let _ = write!(extra, ",\"def\":{},\"args\":{}", esc(&d.name()), ga); }
                            }
                        }
                        _ => { let o = self.op(func); let _ = write!(extra, ",\"ptr\":{}", o); }
                    }
                }
                let a = arr(args.iter(), |o| self.op(o));
                format!("[\"call\",{{\"f\":{}{}}},{},{},{}]", callee, extra, a, self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
        }
    }
    fn emit_body(&mut self, head: String, b: &Body) {
        let locs: Vec<LocalDecl> = b.locals().to_vec();
        let lt = arr(locs.iter(), |l| self.ty(l.ty).to_string());
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { let pl = self.place(p); names.push(format!("[{},{}]", esc(&v.name), pl)); }
        }
        let mut bl = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                let st = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", self.place(p), self.rv(r), line),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()),
                    StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l),
                    StatementKind::StorageDead(l) => format!("[\"sx\",{}]", l),
                    StatementKind::Intrinsic(i) => match i {
                        NonDivergingIntrinsic::Assume(_) => continue,
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"cno\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count)),
                    },
                    _ => continue,
                };
                ss.push(st);
            }
            let t = self.term(&bb.terminator, &locs);
            let line = bb.terminator.source_info.span.get_lines().start_line;
            bl.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", ss.join(","), t, line));
        }
        let spread = match b.spread_arg() { Some(l) => l.to_string(), None => "null".into() };
        self.line(format!("{{{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":[{}],\"blocks\":[{}]}}", head, b.arg_locals().len(), spread, lt, names.join(","), bl.join(",")));
    }
    fn emit_fn(&mut self, i: Instance) {
        let m = i.mangled_name();
        let ga = { let g = i.args(); self.gargs(&g) };
        let krate = i.def.krate();
        let sp = self.span(&i.def.span());
        let kind = format!("{:?}", i.kind);
        let did = rustc_public::rustc_internal::internal(self.tcx, i.def.def_id());
        let isfn = matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn);
        let uns = isfn && self.tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let tf: Vec<String> = if isfn { self.tcx.codegen_fn_attrs(did).target_features.iter().map(|f| f.name.to_string()).collect() } else { vec![] };
        let head = format!("\"unsafe\":{},\"tf\":{},", uns as u8, arr(tf, |x| esc(&x))) + &format!("\"k\":\"fn\",\"id\":{},\"name\":{},\"path\":{},\"args\":{},\"crate\":{},\"local\":{},\"ik\":{},\"span\":{}",
            esc(&m), esc(&i.name()), esc(&i.def.name()), ga, esc(&krate.name), krate.is_local as u8, esc(&kind), sp);
        if i.is_foreign_item() { self.line(format!("{{{},\"foreign\":1}}", head)); return; }
        if let Some(n) = i.intrinsic_name() { self.line(format!("{{{},\"intrinsic\":{}}}", head, esc(&n))); return; }
        let nm = i.name();
        if nm.starts_with("core::fmt") || nm.starts_with("std::fmt") || nm.contains("panicking") || nm.starts_with("std::io") { self.line(format!("{{{},\"skipped\":1}}", head)); return; }
        match i.body() {
            Some(b) => self.emit_body(head, &b),
            None => self.line(format!("{{{},\"nobody\":1}}", head)),
        }
    }
    fn drain(&mut self) {
        loop {
            if let Some(f) = self.fnq.pop_front() { self.emit_fn(f); continue; }
            if let Some(a) = self.allocq.pop_front() { self.emit_alloc(a); continue; }
            if let Some(t) = self.tyq.pop_front() { self.emit_ty(t); continue; }
            break;
        }
    }
}

fn go<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>) -> ControlFlow<()> {
    let path = std::env::var("MIRDUMP_OUT").unwrap();
    let f = std::io::BufWriter::new(std::fs::File::create(&path).unwrap());
    let mut cx = Cx { tcx, out: Box::new(f), tys: HashMap::new(), tyq: VecDeque::new(), fns: HashSet::new(), fnq: VecDeque::new(), allocs: HashSet::new(), allocq: VecDeque::new(), aids: vec![] };
    let mut generics = vec![];
    let tf: Vec<String> = tcx.sess.internal_target_features.iter().map(|f| f.to_string()).collect();
    cx.line(format!("{{\"k\":\"sess\",\"tf\":{}}}", arr(tf, |x| esc(&x))));
    for it in rustc_public::all_local_items() {
        let kind = format!("{:?}", it.kind());
        let sp = cx.span(&it.span());
        let name = it.name();
        if it.requires_monomorphization() {
            if kind == "Fn" { generics.push(it); }
            cx.line(format!("{{\"k\":\"item\",\"name\":{},\"kind\":{},\"generic\":1,\"span\":{}}}", esc(&name), esc(&kind), sp));
            continue;
        }
        cx.line(format!("{{\"k\":\"item\",\"name\":{},\"kind\":{},\"span\":{}}}", esc(&name), esc(&kind), sp));
        if kind == "Fn" {
            if let Ok(i) = Instance::try_from(it) { cx.push_fn(i); }
        } else if kind == "Const" {
            let t = it.ty();
            if let Ok(i) = Instance::try_from(it) {
                if let Ok(a) = i.try_const_eval(t) {
                    let v = cx.alloc(&a);
                    let tid = cx.ty(t);
                    cx.line(format!("{{\"k\":\"const\",\"name\":{},\"ty\":{},\"a\":{},\"span\":{}}}", esc(&name), tid, v, sp));
                }
            }
        }
    }
    cx.drain();
    // functions generic over a random generator: an instance with the generator the crate uses
    let rng = cx.tys.keys().filter(|t| { let n = format!("{}", t); (n.ends_with("ThreadRng") || n.ends_with("OsRng") || n.ends_with("StdRng")) && !n.contains('&') && !n.contains('*') }).min_by_key(|t| format!("{}", t)).copied();
    for it in generics.iter() {
        let did = rustc_public::rustc_internal::internal(cx.tcx, it.def_id());
        if !cx.tcx.clauses_of(did).clauses.iter().any(|(p, _)| { let n = format!("{}", p); n.contains(": rand::RngCore") || n.contains(": rand::Rng") || n.contains(": rand_core::RngCore") }) { continue; }
        if let (Some(r), TyKind::RigidTy(RigidTy::FnDef(d, g))) = (rng, it.ty().kind()) {
            let mut ok = true;
            let v: Vec<GenericArgKind> = g.0.iter().map(|a| match a { GenericArgKind::Type(_) => GenericArgKind::Type(r), GenericArgKind::Const(_) => { ok = false; a.clone() } x => x.clone() }).collect();
            if ok { if let Ok(i) = Instance::resolve(d, &GenericArgs(v)) { cx.push_fn(i); } }
        }
    }
    cx.drain();
    for it in generics {
        if let Some(b) = it.body() {
            let sp = cx.span(&it.span());
            let name = it.name();
            let did = rustc_public::rustc_internal::internal(cx.tcx, it.def_id());
            let preds = arr(cx.tcx.clauses_of(did).clauses.iter(), |(p, _)| esc(&format!("{}", p)));
            cx.emit_body(format!("\"k\":\"gfn\",\"name\":{},\"span\":{},\"preds\":{}", esc(&name), sp, preds), &b);
        }
    }
    cx.drain();
    cx.line("{\"k\":\"end\"}".into());
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run_with_tcx!(&args, go);
    if r.is_err() { std::process::exit(1); }
}
