// nomsa-driver: rustc driver that type-checks a crate and dumps its
// drop-elaborated MIR, ADT/impl/trait facts and resolved callees as JSON.
// It analyses nothing itself; all rules live in /verif/sa/*.py.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_index;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    tys: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
    typing_env: ty::TypingEnv<'tcx>,
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x);
    }
    s.push(']');
    s
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn id(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let idx = self.tys.len();
        self.types.insert(t, idx);
        self.tys.push(String::new());
        let s = with_no_trimmed_paths!(format!("{t}"));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{},\"bits\":{},\"sg\":true", esc(i.name_str()), i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"n\":{},\"bits\":{},\"sg\":false", esc(i.name_str()), i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"n\":{}", esc(f.name_str())),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Adt(def, args) => {
                if self.adts.insert(def.did(), ()).is_none() {
                    self.adt_queue.push(def.did());
                }
                let a = list(args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                format!("\"k\":\"adt\",\"p\":{},\"d\":\"{}\",\"a\":{}", esc(&self.path(def.did())), kind, a)
            }
            ty::Ref(_, x, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*x)),
            ty::RawPtr(x, m) => format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*x)),
            ty::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*x)),
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(*x), n)
            }
            ty::Tuple(ts) => {
                let a = list(ts.iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!("\"k\":\"tuple\",\"ts\":{}", a)
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a = list(args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!("\"k\":\"fndef\",\"id\":{},\"p\":{},\"a\":{}", esc(&self.id(*d)), esc(&self.path(*d)), a)
            }
            ty::Closure(d, args) => {
                let up = list(args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!("\"k\":\"closure\",\"id\":{},\"up\":{}", esc(&self.id(*d)), up)
            }
            ty::Coroutine(d, args) => {
                let up = list(args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!("\"k\":\"coroutine\",\"id\":{},\"up\":{}", esc(&self.id(*d)), up)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        self.tys[idx] = format!("{{{},\"s\":{}}}", body, esc(&s));
        idx
    }

    fn span(&self, sp: Span) -> (String, usize, String) {
        let sm = self.tcx.sess.source_map();
        let mut mac = String::new();
        if sp.from_expansion() {
            // outermost macro name chain
            let mut names = vec![];
            for e in sp.macro_backtrace() {
                names.push(e.kind.descr().to_string());
            }
            mac = names.join("<");
        }
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        (f, lo.line, mac)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            s.push(',');
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, t) => {
                    let _ = write!(s, "{{\"f\":{},\"t\":{}}}", f.as_usize(), self.ty(t));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "{{\"i\":{}}}", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, "{{\"ci\":{},\"min\":{},\"fe\":{}}}", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "{{\"ss\":[{},{}],\"fe\":{}}}", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(s, "{{\"v\":{},\"n\":{}}}", v.as_usize(), esc(&n.map(|x| x.to_string()).unwrap_or_default()));
                }
                _ => s.push_str("\"?\""),
            }
        }
        s.push(']');
        s
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let off = off as usize;
                let end = off.checked_add(len as usize)?;
                if end > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut s = format!("{{\"ty\":{}", self.ty(t));
        let (_, line, mac) = self.span(c.span);
        let _ = (line, mac);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let _ = write!(s, ",\"fn\":{}", self.callee(*d, args));
            s.push('}');
            return s;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(s, ",\"prom\":{}", p.as_usize());
            } else {
                let _ = write!(s, ",\"def\":{}", esc(&self.path(u.def)));
            }
        }
        // scalar / str / bytes values
        let has_param = c.const_.ty().has_param() || match c.const_ {
            Const::Unevaluated(u, _) => u.args.has_param(),
            _ => false,
        };
        let is_prom = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !has_param && !is_prom {
            if let Ok(v) = c.const_.eval(self.tcx, self.typing_env, c.span) {
                self.constval(&mut s, v, t);
            }
        } else if let Const::Val(v, _) = c.const_ {
            self.constval(&mut s, v, t);
        }
        s.push('}');
        s
    }

    fn constval(&mut self, s: &mut String, v: ConstValue, t: Ty<'tcx>) {
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let sh = 128 - sz;
                        let v = ((bits << sh) as i128) >> sh;
                        let _ = write!(s, ",\"int\":\"{}\"", v);
                    }
                    _ => {
                        let _ = write!(s, ",\"int\":\"{}\"", bits);
                    }
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            if d.val == bits {
                                let _ = write!(s, ",\"variant\":{}", esc(def.variant(vi).name.as_str()));
                            }
                        }
                    }
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let ty::Array(el, n) = inner.kind() {
                        if let (Some(n), Some(w)) = (n.try_to_target_usize(self.tcx), int_width(*el)) {
                            if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), n * w) {
                                self.arr(s, &b, w, el.is_signed());
                            }
                        }
                    } else if let ty::Slice(_) = inner.kind() {
                    }
                    if let Some(a) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        if let mir::interpret::GlobalAlloc::Static(d) = a {
                            let _ = write!(s, ",\"static\":{}", esc(&self.path(d)));
                        }
                    }
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    match inner.kind() {
                        ty::Str => {
                            if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                                let _ = write!(s, ",\"str\":{}", esc(&String::from_utf8_lossy(&b)));
                            }
                        }
                        ty::Slice(el) => {
                            if let Some(w) = int_width(*el) {
                                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta * w) {
                                    self.arr(s, &b, w, el.is_signed());
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            ConstValue::ZeroSized => {
                s.push_str(",\"zst\":true");
            }
            ConstValue::Indirect { alloc_id, offset } => {
                match t.kind() {
                    ty::Array(el, n) => {
                        if let (Some(n), Some(w)) = (n.try_to_target_usize(self.tcx), int_width(*el)) {
                            if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), n * w) {
                                self.arr(s, &b, w, el.is_signed());
                            }
                        }
                    }
                    ty::Ref(_, inner, _) => {
                        // fat pointer stored indirectly: follow provenance
                        if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                            let a = a.inner();
                            let ptrs: Vec<_> = a.provenance().ptrs().iter().map(|(o, p)| (*o, *p)).collect();
                            for (o, p) in ptrs {
                                if o == offset {
                                    let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                        (offset.bytes() as usize)..(offset.bytes() as usize + 16).min(a.len()),
                                    );
                                    if raw.len() == 16 {
                                        let o2 = u64::from_le_bytes(raw[0..8].try_into().unwrap());
                                        let len = u64::from_le_bytes(raw[8..16].try_into().unwrap());
                                        match inner.kind() {
                                            ty::Str => {
                                                if let Some(b) = self.alloc_bytes(p.alloc_id(), o2, len) {
                                                    let _ = write!(s, ",\"str\":{}", esc(&String::from_utf8_lossy(&b)));
                                                }
                                            }
                                            ty::Slice(el) => {
                                                if let Some(w) = int_width(*el) {
                                                    if let Some(b) = self.alloc_bytes(p.alloc_id(), o2, len * w) {
                                                        self.arr(s, &b, w, el.is_signed());
                                                    }
                                                }
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn arr(&mut self, s: &mut String, b: &[u8], w: u64, _signed: bool) {
        let mut v = vec![];
        for ch in b.chunks(w as usize) {
            let mut x: u128 = 0;
            for (i, y) in ch.iter().enumerate() {
                x |= (*y as u128) << (8 * i);
            }
            v.push(format!("{}", x));
        }
        if v.len() <= 4096 {
            let _ = write!(s, ",\"arr\":{}", list(v));
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(c)),
            _ => "{\"k\":{\"rt\":true}}".into(),
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let a = list(args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let mut s = format!(
            "{{\"id\":{},\"p\":{},\"full\":{},\"a\":{},\"local\":{}",
            esc(&self.id(d)), esc(&self.path(d)), esc(&full), a, d.is_local()
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", esc(&self.path(tr)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.typing_env, d, args) {
                let rd = inst.def_id();
                if rd != d {
                    let _ = write!(s, ",\"rid\":{},\"rp\":{},\"rlocal\":{}", esc(&self.id(rd)), esc(&self.path(rd)), rd.is_local());
                    let ra = list(inst.args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                    let _ = write!(s, ",\"ra\":{}", ra);
                }
                let _ = write!(s, ",\"ik\":{}", esc(&format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string()));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            s.push_str(",\"us\":true");
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            s.push_str(",\"ctor\":true");
        }
        s.push('}');
        s
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"d\":{}}}", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("{{\"r\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}", esc(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(&ab.0), self.operand(&ab.1)),
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"disc\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("\"ak\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".into(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        if self.adts.insert(*d, ()).is_none() {
                            self.adt_queue.push(*d);
                        }
                        let a = list(args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                        format!("\"ak\":\"adt\",\"p\":{},\"v\":{},\"vn\":{},\"a\":{}", esc(&self.path(*d)), v.as_usize(), esc(def.variant(*v).name.as_str()), a)
                    }
                    AggregateKind::Closure(d, _) => format!("\"ak\":\"closure\",\"id\":{}", esc(&self.id(*d))),
                    AggregateKind::Coroutine(d, _) => format!("\"ak\":\"coroutine\",\"id\":{}", esc(&self.id(*d))),
                    AggregateKind::CoroutineClosure(d, _) => format!("\"ak\":\"coroutine_closure\",\"id\":{}", esc(&self.id(*d))),
                    AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".into(),
                };
                format!("{{\"r\":\"agg\",{},\"o\":{}}}", ks, o)
            }
            _ => "{\"r\":\"other\"}".into(),
        }
    }

    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut s = String::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upn: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    upn.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
                }
            }
        }
        let locals = list(
            b.local_decls
                .iter_enumerated()
                .map(|(l, d)| {
                    let t = self.ty(d.ty);
                    match names.get(&l.as_usize()) {
                        Some(n) => format!("{{\"ty\":{},\"n\":{}}}", t, esc(n)),
                        None => format!("{{\"ty\":{}}}", t),
                    }
                })
                .collect::<Vec<_>>(),
        );
        let _ = write!(s, "\"argc\":{},\"locals\":{},\"upn\":{},\"blocks\":[", b.arg_count, locals, list(upn));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                s.push(',');
            }
            let mut st = vec![];
            for x in &bb.statements {
                let (_, line, mac) = self.span(x.source_info.span);
                let tail = if mac.is_empty() { format!(",\"l\":{}}}", line) } else { format!(",\"l\":{},\"mac\":{}}}", line, esc(&mac)) };
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        st.push(format!("{{\"s\":\"=\",\"p\":{},\"r\":{}{}", p, r, tail));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("{{\"s\":\"setd\",\"p\":{},\"v\":{}{}", p, variant_index.as_usize(), tail));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, line, mac) = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let tg = list(targets.iter().map(|(v, b)| {
                        let vs = match dt.kind() {
                            ty::Int(it) => {
                                let sz = it.bit_width().unwrap_or(64);
                                let sh = 128 - sz;
                                format!("{}", ((v << sh) as i128) >> sh)
                            }
                            _ => v.to_string(),
                        };
                        format!("[\"{}\",{}]", vs, b.as_usize())
                    }).collect::<Vec<_>>());
                    format!("\"t\":\"switch\",\"d\":{},\"dt\":{},\"tg\":{},\"ow\":{}", d, dti, tg, targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "\"t\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
                TerminatorKind::UnwindResume => "\"t\":\"resume\"".into(),
                TerminatorKind::UnwindTerminate(_) => "\"t\":\"terminate\"".into(),
                TerminatorKind::CoroutineDrop => "\"t\":\"cdrop\"".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    format!("\"t\":\"drop\",\"p\":{},\"to\":{},\"uw\":{}", self.place(place), target.as_usize(), uw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func);
                    let a = list(args.iter().map(|x| self.operand(&x.node)).collect::<Vec<_>>());
                    let d = self.place(destination);
                    let to = target.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
                    format!("\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"uw\":{}", f, a, d, to, uw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond);
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len), self.operand(index)]),
                        AssertKind::Overflow(op, x, y) => (format!("overflow:{:?}", op), vec![self.operand(x), self.operand(y)]),
                        AssertKind::OverflowNeg(x) => ("overflow_neg".into(), vec![self.operand(x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(x)]),
                        o => (format!("other:{:?}", std::mem::discriminant(o)), vec![]),
                    };
                    format!("\"t\":\"assert\",\"c\":{},\"e\":{},\"mk\":{},\"ops\":{},\"to\":{},\"uw\":{}", c, expected, esc(&mk), list(ops), target.as_usize(), uw(unwind))
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("\"t\":\"yield\",\"o\":{},\"to\":{},\"ra\":{}", self.operand(value), resume.as_usize(), self.place(resume_arg))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                o => format!("\"t\":\"other\",\"dbg\":{}", esc(&format!("{:?}", o))),
            };
            let tail = if mac.is_empty() { format!(",\"l\":{}", line) } else { format!(",\"l\":{},\"mac\":{}", line, esc(&mac)) };
            let _ = write!(s, "{{\"s\":{},\"t\":{{{}{}}},\"cl\":{}}}", list(st), ts, tail, bb.is_cleanup);
        }
        s.push(']');
        s
    }
}

fn int_width(t: Ty<'_>) -> Option<u64> {
    match t.kind() {
        ty::Int(i) => Some(i.bit_width().unwrap_or(64) / 8),
        ty::Uint(i) => Some(i.bit_width().unwrap_or(64) / 8),
        ty::Bool => Some(1),
        ty::Char => Some(4),
        _ => None,
    }
}

struct Cb {
    out: String,
}

fn reach<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> bool {
    tcx.effective_visibilities(()).is_reachable(d)
}
fn exported<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> bool {
    tcx.effective_visibilities(()).is_exported(d)
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut out = String::from("{");
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
    let _ = write!(out, "\"crate\":{}", esc(krate.as_str()));
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        tys: vec![],
        adts: HashMap::new(),
        adt_queue: vec![],
        typing_env: ty::TypingEnv::fully_monomorphized(),
    };
    out.push_str(",\"bodies\":[");
    let mut first = true;
    for d in tcx.mir_keys(()).iter() {
        let d = *d;
        let did = d.to_def_id();
        let dk = tcx.def_kind(did);
        let kind = format!("{:?}", dk);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody);
        if matches!(dk, DefKind::Ctor(..)) {
            continue;
        }
        cx.typing_env = ty::TypingEnv::post_analysis(tcx, did);
        let mut text = String::new();
        let mut phase = "elab";
        if is_fn {
            let st = tcx.mir_drops_elaborated_and_const_checked(d);
            let early = if tcx.is_coroutine(did) { EARLY.lock().unwrap().get(&d.local_def_index.as_u32()).copied() } else { None };
            if let Some(p) = early {
                // coroutine: keep the body from before the state transform
                phase = "prom";
                let b: &'tcx Body<'tcx> = unsafe { &*(p as *const Body<'tcx>) };
                text = cx.body(b);
            } else if !st.is_stolen() {
                let b = st.borrow();
                text = cx.body(&b);
            } else if tcx.is_const_fn(did) {
                phase = "ctfe";
                text = cx.body(tcx.mir_for_ctfe(d));
            } else {
                phase = "opt";
                text = cx.body(tcx.optimized_mir(d));
            }
        } else {
            // consts / statics: value MIR
            phase = "ctfe";
            if matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
                let b = tcx.mir_for_ctfe(d);
                text = cx.body(b);
            } else {
                continue;
            }
        }
        let proms = tcx.promoted_mir(did);
        let pt = list(proms.iter().map(|b| format!("{{{}}}", cx.body(b))).collect::<Vec<_>>());
        let (file, line, mac) = cx.span(tcx.def_span(did));
        let hi = tcx.sess.source_map().lookup_char_pos(tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d)).hi()).line;
        if !first {
            out.push(',');
        }
        first = false;
        let _ = write!(
            out,
            "{{\"id\":{},\"path\":{},\"kind\":{},\"phase\":\"{}\",\"file\":{},\"line\":{},\"endline\":{},\"reach\":{},\"exported\":{}",
            esc(&cx.id(did)), esc(&cx.path(did)), esc(&kind), phase, esc(&file), line, hi, reach(tcx, d), exported(tcx, d)
        );
        if !mac.is_empty() {
            let _ = write!(out, ",\"mac\":{}", esc(&mac));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(out, ",\"async\":{}", tcx.asyncness(did).is_async());
            let vis = tcx.visibility(did);
            let _ = write!(out, ",\"pub\":{}", vis.is_public());
            let _ = write!(out, ",\"deprecated\":{}", tcx.lookup_deprecation(did).is_some());
            let sig = with_no_trimmed_paths!(format!("{}", tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder()));
            let _ = write!(out, ",\"sig\":{}", esc(&sig));
            let _ = write!(out, ",\"unsafe\":{}", sig.starts_with("unsafe"));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(out, ",\"self\":{}", cx.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(out, ",\"trait\":{},\"traitref\":{}", esc(&cx.path(tr.def_id)), esc(&with_no_trimmed_paths!(format!("{}", tr))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(out, ",\"intrait\":{}", esc(&cx.path(tr)));
            }
        }
        if tcx.is_closure_like(did) {
            let p = tcx.typeck_root_def_id(did);
            let _ = write!(out, ",\"root\":{},\"parent\":{}", esc(&cx.id(p)), esc(&cx.id(tcx.parent(did))));
            let _ = write!(out, ",\"coroutine\":{}", tcx.is_coroutine(did));
        }
        let _ = write!(out, ",\"ublocks\":{}", list(unsafe_blocks(&cx, d)));
        let _ = write!(out, ",{},\"proms\":{}}}", text, pt);
    }
    out.push(']');
    // impls
    cx.typing_env = ty::TypingEnv::fully_monomorphized();
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let (file, line, mac) = cx.span(tcx.def_span(did));
                let mut s = format!("{{\"self\":{},\"file\":{},\"line\":{}", cx.ty(st), esc(&file), line);
                if !mac.is_empty() {
                    let _ = write!(s, ",\"mac\":{}", esc(&mac));
                }
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"us\":{}", tcx.trait_def(tr.def_id).safety.is_unsafe());
                        let _ = write!(s, ",\"trait\":{},\"traitref\":{}", esc(&cx.path(tr.def_id)), esc(&with_no_trimmed_paths!(format!("{}", tr))));
                        let _ = write!(s, ",\"targs\":{}", list(tr.args.types().skip(1).map(|t| cx.ty(t).to_string()).collect::<Vec<_>>()));
                    }
                }
                let items = list(tcx.associated_item_def_ids(did).iter().map(|d| esc(&cx.id(*d))).collect::<Vec<_>>());
                let _ = write!(s, ",\"items\":{}}}", items);
                impls.push(s);
            }
            _ => {}
        }
    }
    let _ = write!(out, ",\"impls\":{}", list(impls));
    // items: statics, traits, adts
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let dk = tcx.def_kind(did);
        match dk {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                let tls = tcx.is_thread_local_static(did);
                let (file, line, mac) = cx.span(tcx.def_span(did));
                items.push(format!("{{\"k\":\"static\",\"p\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"ty\":{},\"file\":{},\"line\":{},\"mac\":{}}}", esc(&cx.path(did)), mutability.is_mut(), freeze, tls, cx.ty(t), esc(&file), line, esc(&mac)));
            }
            DefKind::Trait => {
                items.push(format!("{{\"k\":\"trait\",\"p\":{},\"exported\":{},\"reach\":{},\"pub\":{},\"supers\":{}}}",
                    esc(&cx.path(did)), exported(tcx, id), reach(tcx, id), tcx.visibility(did).is_public(),
                    list(tcx.explicit_super_clauses_of(did).skip_binder().iter().map(|x| esc(&with_no_trimmed_paths!(format!("{:?}", x.0)))).collect::<Vec<_>>())));
            }
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(did);
                if cx.adts.insert(did, ()).is_none() {
                    cx.adt_queue.push(did);
                }
                let _ = def;
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut s = format!("{{\"k\":\"const\",\"p\":{},\"ty\":{}", esc(&cx.path(did)), cx.ty(t));
                if !t.has_param() && tcx.generics_of(did).is_own_empty() && tcx.generics_of(did).parent_count == 0 {
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        cx.constval(&mut s, v, t);
                    }
                }
                s.push('}');
                items.push(s);
            }
            DefKind::Mod => {
                items.push(format!("{{\"k\":\"mod\",\"p\":{},\"exported\":{},\"reach\":{}}}", esc(&cx.path(did)), exported(tcx, id), reach(tcx, id)));
            }
            _ => {}
        }
    }
    let _ = write!(out, ",\"items\":{}", list(items));
    // adts (closure over queue)
    let mut adts = vec![];
    while let Some(d) = cx.adt_queue.pop() {
        let def = tcx.adt_def(d);
        let mut s = format!("{{\"p\":{},\"local\":{},\"kind\":\"{}\"", esc(&cx.path(d)), d.is_local(), if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" });
        if let Some(ld) = d.as_local() {
            let _ = write!(s, ",\"exported\":{},\"reach\":{},\"pub\":{}", exported(tcx, ld), reach(tcx, ld), tcx.visibility(d).is_public());
        }
        let ne = def.is_variant_list_non_exhaustive() || (def.is_struct() && def.non_enum_variant().is_field_list_non_exhaustive());
        let _ = write!(s, ",\"non_exhaustive\":{}", ne);
        if d.is_local() {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let _ = write!(s, ",\"ty\":{}", cx.ty(t));
            let env = ty::TypingEnv::post_analysis(tcx, d);
            use rustc_infer::infer::TyCtxtInferExt;
            let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
            use rustc_trait_selection::infer::InferCtxtExt;
            let erased = tcx.erase_and_anonymize_regions(t);
            for (n, tr) in [("send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("sync", tcx.lang_items().sync_trait())] {
                if let Some(tr) = tr {
                    let r = infcx.type_implements_trait(tr, [erased], pe).must_apply_modulo_regions();
                    let _ = write!(s, ",\"{}\":{}", n, r);
                }
            }
            let (file, line, _) = cx.span(tcx.def_span(d));
            let _ = write!(s, ",\"file\":{},\"line\":{}", esc(&file), line);
        }
        let discs: HashMap<_, _> = if def.is_enum() { def.discriminants(tcx).map(|(i, x)| (i, x.to_string())).collect() } else { HashMap::new() };
        let vs = list(def.variants().iter_enumerated().map(|(vi, v)| {
            let fs = list(v.fields.iter().map(|f| {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let fti = if d.is_local() { cx.ty(ft).to_string() } else { "null".into() };
                format!("{{\"n\":{},\"ty\":{},\"pub\":{}}}", esc(f.name.as_str()), fti, tcx.visibility(f.did).is_public())
            }).collect::<Vec<_>>());
            format!("{{\"n\":{},\"d\":{},\"fs\":{}}}", esc(v.name.as_str()), esc(discs.get(&vi).map(|x| x.as_str()).unwrap_or("")), fs)
        }).collect::<Vec<_>>());
        let _ = write!(s, ",\"vs\":{}}}", vs);
        adts.push(s);
    }
    let _ = write!(out, ",\"adts\":{}", list(adts));
    let _ = write!(out, ",\"types\":{}", list(cx.tys.clone()));
    out.push_str("}\n");
    out
}

static EARLY: std::sync::Mutex<std::collections::BTreeMap<u32, usize>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

/// user-written unsafe blocks of a body: the macro chain they come from ("" when written in place)
struct UnsafeV<'a, 'tcx>(&'a Cx<'tcx>, Vec<String>);
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let (_, _, mac) = self.0.span(b.span);
            self.1.push(esc(&mac));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
fn unsafe_blocks<'tcx>(cx: &Cx<'tcx>, d: LocalDefId) -> Vec<String> {
    let mut v = UnsafeV(cx, vec![]);
    if let Some(b) = cx.tcx.hir_maybe_body_owned_by(d) {
        rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
    }
    v.1
}

fn my_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let mut p = rustc_middle::query::Providers::default();
    rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_promoted.clone_into(&mut p.mir_promoted);
    let r = (p.mir_promoted)(tcx, d);
    if tcx.is_coroutine(d.to_def_id()) {
        let b: Body<'tcx> = r.0.borrow().clone();
        let l = Box::leak(Box::new(b));
        EARLY.lock().unwrap().insert(d.local_def_index.as_u32(), l as *const Body<'tcx> as usize);
    }
    r
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, p| {
            p.queries.mir_promoted = my_promoted;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let s = dump(tcx);
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER mode: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("NOMSA_CRATES").unwrap_or_default();
    let dir = std::env::var("NOMSA_OUT").unwrap_or_default();
    let tag = std::env::var("NOMSA_TAG").unwrap_or_default();
    let go = !dir.is_empty() && want.split(',').any(|w| w == crate_name);
    if go {
        let mut cb = Cb { out: format!("{dir}/{crate_name}{tag}.json") };
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
