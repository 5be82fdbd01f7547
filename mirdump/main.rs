// mirdump: a rustc driver that compiles a crate exactly as rustc does and writes, as JSON, the
// monomorphic MIR of selected root functions and of everything they (transitively) call, with the
// layouts of all types and the contents of all constants.  It adds and changes nothing.
//
// Environment:
//   VP_OUT    output file
//   VP_ROOTS  ';'-separated list of roots in the local crate:
//               pub:*                      every non-generic `pub fn` at the crate root
//               fn:PATH[:T,T,..]           a (private) function, instantiated at each T if given
//               trait:PATH::METHOD:T,T,..  a (private) trait's method at each Self type
//             a root that does not exist is listed under "missing".
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_target;
extern crate rustc_ast;
extern crate rustc_ast_ir;

use rustc_abi::{FieldIdx, FieldsShape, TagEncoding, VariantIdx, Variants, Primitive, Scalar as AbiScalar};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<String>,
    queue: VecDeque<Instance<'tcx>>,
    alloc_ids: HashMap<AllocId, usize>,
    alloc_out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.inst_ids.get(&i) { return n; }
        let n = self.inst_out.len();
        self.inst_ids.insert(i, n);
        self.inst_out.push(String::new());
        self.queue.push_back(i);
        n
    }

    fn scalar_json(&self, s: &AbiScalar) -> String {
        let p = match s.primitive() {
            Primitive::Int(i, signed) => format!("{}{}", if signed { "i" } else { "u" }, i.size().bits()),
            Primitive::Float(f) => format!("f{}", f.size().bits()),
            Primitive::Pointer(_) => "ptr".to_string(),
        };
        let size = s.size(&self.tcx).bytes();
        let vr = s.valid_range(&self.tcx);
        format!("{{\"p\":{},\"size\":{},\"start\":\"{}\",\"end\":\"{}\",\"union\":{}}}", esc(&p), size, vr.start, vr.end, matches!(s, AbiScalar::Union{..}))
    }

    fn layout_json(&mut self, t: Ty<'tcx>) -> String {
        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) else { return "null".into() };
        let offs = |fs: &FieldsShape<FieldIdx>| -> String {
            match fs {
                FieldsShape::Primitive => "[]".into(),
                FieldsShape::Union(n) => list((0..n.get()).map(|_| "0".to_string())),
                FieldsShape::Array { stride, count } => format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count),
                FieldsShape::Arbitrary { offsets, .. } => list(offsets.iter().map(|o| o.bytes().to_string())),
            }
        };
        let var = match &l.variants {
            Variants::Empty => "{\"k\":\"empty\"}".to_string(),
            Variants::Single { index } => format!("{{\"k\":\"single\",\"index\":{}}}", index.as_u32()),
            Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                let enc = match tag_encoding {
                    TagEncoding::Direct => "{\"k\":\"direct\"}".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"k\":\"niche\",\"untagged\":{},\"start_v\":{},\"end_v\":{},\"niche_start\":\"{}\"}}",
                        untagged_variant.as_u32(), niche_variants.start.as_u32(), niche_variants.last.as_u32(), niche_start),
                };
                format!("{{\"k\":\"multi\",\"tag\":{},\"enc\":{},\"tag_off\":{},\"variants\":{}}}",
                    self.scalar_json(tag), enc, l.fields.offset(tag_field.as_usize()).bytes(),
                    list(variants.iter().map(|v| list(v.field_offsets.iter().map(|o| o.bytes().to_string())))))
            }
        };
        let br = match l.backend_repr {
            rustc_abi::BackendRepr::Scalar(s) => format!("{{\"k\":\"scalar\",\"s\":{}}}", self.scalar_json(&s)),
            _ => "null".to_string(),
        };
        format!("{{\"size\":{},\"align\":{},\"unsized\":{},\"uninhabited\":{},\"offsets\":{},\"variants\":{},\"repr\":{}}}",
            l.size.bytes(), l.align.abi.bytes(), l.is_unsized(), l.is_uninhabited(), offs(&l.fields), var, br)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.ty_ids.get(&t) { return n; }
        let n = self.ty_out.len();
        self.ty_ids.insert(t, n);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let k = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"name\":{}", esc(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"name\":{}", esc(i.name_str())),
            ty::Float(f) => format!("\"k\":\"float\",\"name\":{}", esc(f.name_str())),
            ty::RawPtr(p, m) => { let to = self.ty(*p); format!("\"k\":\"ptr\",\"raw\":true,\"to\":{},\"mut\":{}", to, m.is_mut()) }
            ty::Ref(_, p, m) => { let to = self.ty(*p); format!("\"k\":\"ptr\",\"raw\":false,\"to\":{},\"mut\":{}", to, m.is_mut()) }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Slice(e) => { let e = self.ty(*e); format!("\"k\":\"slice\",\"elem\":{}", e) }
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Array(e, c) => {
                let e = self.ty(*e);
                let c = c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, c)
            }
            ty::Tuple(ts) => { let fs: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"fields\":{}", list(fs)) }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&tcx.def_path_str(*d))),
            ty::Closure(d, args) => {
                let fs: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"fields\":{}", esc(&tcx.def_path_str(*d)), list(fs))
            }
            ty::Adt(def, args) => {
                let kind = if def.is_union() { "union" } else if def.is_enum() { "enum" } else { "struct" };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        self.ty(ft).to_string()
                    }).collect();
                    let names: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                    vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{},\"names\":{}}}", esc(v.name.as_str()), discr, list(fs), list(names)));
                }
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"args\":{},\"variants\":{}", kind, esc(&tcx.def_path_str(def.did())), list(targs), list(vs))
            }
            ty::Pat(inner, _) => { let i = self.ty(*inner); format!("\"k\":\"pat\",\"inner\":{}", i) }
            _ => "\"k\":\"other\"".into(),
        };
        let sized = t.is_sized(tcx, self.env);
        let lay = self.layout_json(t);
        let freeze = t.is_freeze(tcx, self.env);
        self.ty_out[n] = format!("{{{},\"str\":{},\"sized\":{},\"freeze\":{},\"layout\":{}}}", k, esc(&t.to_string()), sized, freeze, lay);
        n
    }

    fn alloc(&mut self, id: AllocId) -> usize {
        if let Some(&n) = self.alloc_ids.get(&id) { return n; }
        let n = self.alloc_out.len();
        self.alloc_ids.insert(id, n);
        self.alloc_out.push(String::new());
        let s = match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => { let a = a.inner(); self.mem_json(a) }
            GlobalAlloc::Function { instance, .. } => { let i = self.inst(instance); format!("{{\"k\":\"fn\",\"inst\":{}}}", i) }
            GlobalAlloc::Static(d) => format!("{{\"k\":\"static\",\"path\":{}}}", esc(&self.tcx.def_path_str(d))),
            GlobalAlloc::VTable(..) => "{\"k\":\"vtable\"}".into(),
            _ => "{\"k\":\"other\"}".into(),
        };
        self.alloc_out[n] = s;
        n
    }
    fn mem_json(&mut self, a: &mir::interpret::Allocation) -> String {
        let len = a.size().bytes_usize();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len).to_vec();
        let mut init = Vec::new();
        for i in 0..len {
            let r = rustc_middle::mir::interpret::AllocRange { start: rustc_abi::Size::from_bytes(i), size: rustc_abi::Size::from_bytes(1) };
            init.push(if a.init_mask().is_range_initialized(r).is_ok() { 1 } else { 0 });
        }
        let rel: Vec<(u64, AllocId)> = a.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        let rel: Vec<String> = rel.into_iter().map(|(o, id)| format!("[{},{}]", o, self.alloc(id))).collect();
        format!("{{\"k\":\"mem\",\"align\":{},\"mut\":{},\"bytes\":{},\"init\":{},\"relocs\":{}}}", a.align.bytes(), a.mutability.is_mut(),
            list(bytes.iter().map(|b| b.to_string())), list(init.iter().map(|b: &i32| b.to_string())), list(rel))
    }

    fn konst(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"k\":\"zst\",\"ty\":{}}}", tid);
        }
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => match v {
                ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"ty\":{}}}", tid),
                ConstValue::Scalar(Scalar::Int(i)) => format!("{{\"k\":\"int\",\"ty\":{},\"size\":{},\"v\":\"{}\"}}", tid, i.size().bytes(), i.to_bits_unchecked()),
                ConstValue::Scalar(Scalar::Ptr(p, sz)) => {
                    let (prov, off) = p.into_raw_parts();
                    let a = self.alloc(prov.alloc_id());
                    format!("{{\"k\":\"ptr\",\"ty\":{},\"size\":{},\"alloc\":{},\"off\":{}}}", tid, sz, a, off.bytes())
                }
                ConstValue::Slice { alloc_id, meta } => { let a = self.alloc(alloc_id); format!("{{\"k\":\"slice\",\"ty\":{},\"alloc\":{},\"meta\":{}}}", tid, a, meta) }
                ConstValue::Indirect { alloc_id, offset } => { let a = self.alloc(alloc_id); format!("{{\"k\":\"mem\",\"ty\":{},\"alloc\":{},\"off\":{}}}", tid, a, offset.bytes()) }
            },
            Err(e) => format!("{{\"k\":\"error\",\"ty\":{},\"msg\":{}}}", tid, esc(&format!("{:?}", e))),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut ps = Vec::new();
        for e in p.projection.iter() {
            ps.push(match e {
                ProjectionElem::Deref => "{\"k\":\"deref\"}".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("{{\"k\":\"field\",\"i\":{},\"ty\":{}}}", f.as_u32(), t) }
                ProjectionElem::Index(l) => format!("{{\"k\":\"index\",\"l\":{}}}", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("{{\"k\":\"cindex\",\"o\":{},\"min\":{},\"end\":{}}}", offset, min_length, from_end),
                ProjectionElem::Downcast(_, v) => format!("{{\"k\":\"downcast\",\"v\":{}}}", v.as_u32()),
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(t); format!("{{\"k\":\"opaquecast\",\"ty\":{}}}", t) }
                _ => "{\"k\":\"unsupported\"}".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_u32(), list(ps))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":\"const\",\"c\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"k\":\"rtcheck\",\"c\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), n)
            }
            Rvalue::Ref(_, _, p) => format!("{{\"k\":\"addrof\",\"p\":{}}}", self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"addrof\",\"p\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"k\":\"addrof_reborrow\",\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"ty\":{}}}", esc(&format!("{:?}", k)), self.operand(o), t) }
            Rvalue::BinaryOp(op, ab) => format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(&ab.0), self.operand(&ab.1)),
            Rvalue::UnaryOp(op, a) => format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kk, v, af) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, -1),
                    AggregateKind::Tuple => ("tuple", 0, -1),
                    AggregateKind::Adt(_, v, _, _, af) => ("adt", v.as_u32(), af.map(|x| x.as_u32() as i64).unwrap_or(-1)),
                    AggregateKind::Closure(..) => ("closure", 0, -1),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, -1),
                    _ => ("unsupported", 0, -1),
                };
                format!("{{\"k\":\"agg\",\"a\":\"{}\",\"v\":{},\"af\":{},\"ops\":{}}}", kk, v, af, list(os))
            }
            _ => format!("{{\"k\":\"unsupported\",\"d\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> String {
        // the innermost location in the source (for a macro: inside the macro definition)
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_u32().to_string(),
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate(_) => "\"terminate\"".into(),
        }
    }
    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let tcx = self.tcx;
        let line = esc(&self.line(t.source_info.span));
        let s = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(body, tcx);
                let dt = self.ty(dt);
                let cs: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                format!("\"k\":\"switch\",\"o\":{},\"ty\":{},\"cases\":{},\"else\":{}", self.operand(discr), dt, list(cs), targets.otherwise().as_u32())
            }
            TerminatorKind::UnwindResume => "\"k\":\"resume\"".into(),
            TerminatorKind::UnwindTerminate(_) => "\"k\":\"terminate\"".into(),
            TerminatorKind::Return => "\"k\":\"return\"".into(),
            TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = place.ty(body, tcx).ty;
                let needs = pt.needs_drop(tcx, self.env);
                let g = if needs { let i = Instance::resolve_drop_glue(tcx, pt); self.inst(i).to_string() } else { "null".into() };
                format!("\"k\":\"drop\",\"p\":{},\"glue\":{},\"t\":{},\"u\":{}", self.place(place), g, target.as_u32(), self.unwind(unwind))
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let ft = func.ty(body, tcx);
                let callee = match ft.kind() {
                    ty::FnDef(d, a) => match Instance::try_resolve(tcx, self.env, *d, a.skip_binder()) {
                        Ok(Some(i)) => format!("{{\"k\":\"inst\",\"i\":{}}}", self.inst(i)),
                        _ => format!("{{\"k\":\"unresolved\",\"path\":{}}}", esc(&tcx.def_path_str(*d))),
                    },
                    _ => format!("{{\"k\":\"ptr\",\"o\":{}}}", self.operand(func)),
                };
                let asj: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                let tj = target.map(|b| b.as_u32().to_string()).unwrap_or("null".into());
                format!("\"k\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"t\":{},\"u\":{}", callee, list(asj), self.place(destination), tj, self.unwind(unwind))
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match &**msg { AssertKind::BoundsCheck{..} => "bounds".to_string(), AssertKind::Overflow(op, ..) => format!("overflow {:?}", op), AssertKind::OverflowNeg(_) => "overflow neg".into(), AssertKind::DivisionByZero(_) => "div by zero".into(), AssertKind::RemainderByZero(_) => "rem by zero".into(), AssertKind::MisalignedPointerDereference{..} => "misaligned".into(), AssertKind::NullPointerDereference => "null".into(), _ => "other".into() };
                format!("\"k\":\"assert\",\"o\":{},\"exp\":{},\"msg\":{},\"t\":{},\"u\":{}", self.operand(cond), expected, esc(&m), target.as_u32(), self.unwind(unwind))
            }
            TerminatorKind::InlineAsm { template, operands, options, line_spans, targets, unwind, asm_macro } => {
                let tpl: Vec<String> = template.iter().map(|p| match p {
                    rustc_ast::InlineAsmTemplatePiece::String(s) => format!("{{\"s\":{}}}", esc(s)),
                    rustc_ast::InlineAsmTemplatePiece::Placeholder { operand_idx, modifier, .. } => format!("{{\"o\":{},\"m\":{}}}", operand_idx, modifier.map(|c| esc(&c.to_string())).unwrap_or("null".into())),
                }).collect();
                let reg = |r: &rustc_target::asm::InlineAsmRegOrRegClass| -> String {
                    match r {
                        rustc_target::asm::InlineAsmRegOrRegClass::Reg(r) => format!("{{\"reg\":{},\"class\":{}}}", esc(&r.name()), esc(r.reg_class().name().as_str())),
                        rustc_target::asm::InlineAsmRegOrRegClass::RegClass(c) => format!("{{\"reg\":null,\"class\":{}}}", esc(c.name().as_str())),
                    }
                };
                let mut ops = Vec::new();
                for o in operands.iter() {
                    let j = match o {
                        InlineAsmOperand::In { reg: r, value } => { let t = value.ty(body, tcx); let t = self.ty(t); format!("\"k\":\"in\",\"r\":{},\"in\":{},\"in_ty\":{}", reg(r), self.operand(value), t) }
                        InlineAsmOperand::Out { reg: r, late, place } => {
                            let (p, t) = match place { Some(p) => { let t = p.ty(body, tcx).ty; (self.place(p), self.ty(t).to_string()) } None => ("null".into(), "null".into()) };
                            format!("\"k\":\"out\",\"r\":{},\"late\":{},\"out\":{},\"out_ty\":{}", reg(r), late, p, t)
                        }
                        InlineAsmOperand::InOut { reg: r, late, in_value, out_place } => {
                            let (p, t) = match out_place { Some(p) => { let t = p.ty(body, tcx).ty; (self.place(p), self.ty(t).to_string()) } None => ("null".into(), "null".into()) };
                            let it = in_value.ty(body, tcx); let it = self.ty(it);
                            format!("\"k\":\"inout\",\"r\":{},\"late\":{},\"in\":{},\"in_ty\":{},\"out\":{},\"out_ty\":{}", reg(r), late, self.operand(in_value), it, p, t)
                        }
                        InlineAsmOperand::Const { value } => format!("\"k\":\"const\",\"c\":{}", self.konst(&value.const_)),
                        InlineAsmOperand::SymFn { value } => format!("\"k\":\"symfn\",\"path\":{}", esc(&format!("{:?}", value.const_))),
                        InlineAsmOperand::SymStatic { def_id } => format!("\"k\":\"symstatic\",\"path\":{}", esc(&tcx.def_path_str(*def_id))),
                        InlineAsmOperand::Label { target_index } => format!("\"k\":\"label\",\"t\":{}", targets[*target_index].as_u32()),
                    };
                    ops.push(format!("{{{}}}", j));
                }
                let lines: Vec<String> = line_spans.iter().map(|s| esc(&self.line(*s))).collect();
                let tj = if options.contains(rustc_ast::InlineAsmOptions::NORETURN) { "null".to_string() } else { targets.first().map(|b| b.as_u32().to_string()).unwrap_or("null".into()) };
                format!("\"k\":\"asm\",\"tpl\":{},\"ops\":{},\"opts\":{},\"lines\":{},\"macro\":{},\"t\":{},\"u\":{}", list(tpl), list(ops), esc(&format!("{:?}", options)), list(lines), esc(&format!("{:?}", asm_macro)), tj, self.unwind(unwind))
            }
            _ => format!("\"k\":\"unsupported\",\"d\":{}", esc(&format!("{:?}", t.kind))),
        };
        format!("{{{},\"line\":{}}}", s, line)
    }
    fn stmt(&mut self, s: &Statement<'tcx>) -> Option<String> {
        let line = esc(&self.line(s.source_info.span));
        let j = match &s.kind {
            StatementKind::Assign(pr) => format!("\"k\":\"assign\",\"p\":{},\"r\":{}", self.place(&pr.0), self.rvalue(&pr.1)),
            StatementKind::SetDiscriminant { place, variant_index } => format!("\"k\":\"setdiscr\",\"p\":{},\"v\":{}", self.place(place), variant_index.as_u32()),
            StatementKind::StorageLive(l) => format!("\"k\":\"live\",\"l\":{}", l.as_u32()),
            StatementKind::StorageDead(l) => format!("\"k\":\"dead\",\"l\":{}", l.as_u32()),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => format!("\"k\":\"assume\",\"o\":{}", self.operand(o)),
                NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("\"k\":\"copynonoverlapping\",\"src\":{},\"dst\":{},\"n\":{}", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)),
            },
            StatementKind::FakeRead(..) | StatementKind::PlaceMention(..) | StatementKind::AscribeUserType(..) | StatementKind::Coverage(..) | StatementKind::ConstEvalCounter | StatementKind::Nop | StatementKind::BackwardIncompatibleDropHint { .. } => return None,
            #[allow(unreachable_patterns)]
            _ => format!("\"k\":\"unsupported\",\"d\":{}", esc(&format!("{:?}", s.kind))),
        };
        Some(format!("{{{},\"line\":{}}}", j, line))
    }

    fn dump_inst(&mut self, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let did = i.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(s) => format!("shim {:?}", s),
        };
        let mut h = format!("\"path\":{},\"crate\":{},\"kind\":{},\"name\":{},\"str\":{}", esc(&tcx.def_path_str(did)), esc(tcx.crate_name(did.krate).as_str()), esc(&kind),
            esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()), esc(&i.to_string()));
        let targs: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(h, ",\"args\":{}", list(targs));
        // trait membership
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            let parent = tcx.parent(did);
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(parent).instantiate(tcx, i.args).skip_norm_wip();
                    let st = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(tr.self_ty()));
                    let st = self.ty(st);
                    let _ = write!(h, ",\"trait\":{},\"self\":{}", esc(&tcx.def_path_str(tr.def_id)), st);
                }
                DefKind::Trait => {
                    let st = i.args.type_at(0); let st = self.ty(st);
                    let _ = write!(h, ",\"trait\":{},\"self\":{},\"default\":true", esc(&tcx.def_path_str(parent)), st);
                }
                _ => {}
            }
        }
        if let Some(intr) = tcx.intrinsic(did) { let _ = write!(h, ",\"intrinsic\":{}", esc(intr.name.as_str())); }
        let has = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => false,
            _ => true,
        };
        let sig_unsafe = false;
        let _ = sig_unsafe;
        // never expand panic machinery: these diverge
        let cname = tcx.crate_name(did.krate);
        let path = tcx.def_path_str(did);
        let stop = cname.as_str() == "core" && (path.contains("panicking::") || path.contains("fmt::") || path.contains("panic_"));
        let local = cname.as_str() != "core" && cname.as_str() != "std" && cname.as_str() != "alloc";
        if !has || (stop && !local) { return format!("{{{},\"body\":null}}", h); }
        let body = tcx.instance_mir(i.def);
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); } }
        }
        let ls: Vec<String> = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            format!("{{\"ty\":{},\"name\":{}}}", t, names.get(&l.as_u32()).map(|s| esc(s)).unwrap_or("null".into()))
        }).collect();
        let mut bs = Vec::new();
        for bb in body.basic_blocks.iter() {
            let ss: Vec<String> = bb.statements.iter().filter_map(|s| self.stmt(s)).collect();
            let t = self.term(&body, bb.terminator());
            bs.push(format!("{{\"cleanup\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, list(ss), t));
        }
        let spread = body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into());
        format!("{{{},\"line\":{},\"body\":{{\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}}}", h, esc(&self.line(body.span)), body.arg_count, spread, list(ls), list(bs))
    }
}

fn prim<'tcx>(tcx: TyCtxt<'tcx>, s: &str) -> Option<Ty<'tcx>> {
    let t = &tcx.types;
    Some(match s { "i8" => t.i8, "u8" => t.u8, "i16" => t.i16, "u16" => t.u16, "i32" => t.i32, "u32" => t.u32, "i64" => t.i64, "u64" => t.u64, "i128" => t.i128, "u128" => t.u128, "isize" => t.isize, "usize" => t.usize, _ => return None })
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("VP_OUT") else { return Compilation::Continue };
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), ty_ids: HashMap::new(), ty_out: vec![], inst_ids: HashMap::new(), inst_out: vec![], queue: VecDeque::new(), alloc_ids: HashMap::new(), alloc_out: vec![] };
        let mut roots: Vec<String> = vec![];
        let mut missing: Vec<String> = vec![];
        // index of local items by path
        let mut items: HashMap<String, DefId> = HashMap::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Trait | DefKind::Struct | DefKind::Union) { items.insert(tcx.def_path_str(d), d); }
        }
        for r in std::env::var("VP_ROOTS").unwrap_or_default().split(';') {
            if r.is_empty() { continue; }
            if r == "pub:*" {
                for ld in tcx.hir_crate_items(()).definitions() {
                    let d = ld.to_def_id();
                    if tcx.def_kind(d) == DefKind::Fn && tcx.visibility(d).is_public() && tcx.generics_of(d).own_requires_monomorphization() == false && !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let i = Instance::mono(tcx, d);
                        let n = cx.inst(i);
                        roots.push(format!("{}:{}", esc(&tcx.def_path_str(d)), n));
                    }
                }
                continue;
            }
            let parts: Vec<&str> = r.splitn(2, ':').collect();
            let rest = parts[1];
            // split off the type list (after the last ':' that is not part of '::')
            let (path, tys) = match rest.rfind(':') {
                Some(p) if !(p > 0 && rest.as_bytes()[p - 1] == b':') => (&rest[..p], Some(&rest[p + 1..])),
                _ => (rest, None),
            };
            let Some(&d) = items.get(path) else { missing.push(esc(r)); continue };
            match tys {
                None => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) { missing.push(esc(r)); continue; }
                    let n = cx.inst(Instance::mono(tcx, d));
                    roots.push(format!("{}:{}", esc(path), n));
                }
                Some(ts) => for t in ts.split(',') {
                    // "src=>dst" gives two type arguments
                    let tv: Vec<Ty<'tcx>> = t.split("=>").filter_map(|x| prim(tcx, x)).collect();
                    let gd = tcx.generics_of(d);
                    if gd.count() != tv.len() { missing.push(esc(&format!("{}<{}>", path, t))); continue; }
                    let args: GenericArgsRef<'tcx> = tcx.mk_args_from_iter(tv.iter().map(|x| ty::GenericArg::from(*x)));
                    match Instance::try_resolve(tcx, cx.env, d, args) {
                        Ok(Some(i)) => { let n = cx.inst(i); roots.push(format!("{}:{}", esc(&format!("{}<{}>", path, t)), n)); }
                        _ => missing.push(esc(&format!("{}<{}>", path, t))),
                    }
                }
            }
        }
        while let Some(i) = cx.queue.pop_front() {
            let n = cx.inst_ids[&i];
            let s = cx.dump_inst(i);
            cx.inst_out[n] = s;
        }
        // trait impls in the local crate
        let mut impls = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let tr = tcx.impl_trait_ref(d).skip_binder();
                impls.push(format!("[{},{}]", esc(&tcx.def_path_str(tr.def_id)), esc(&tr.self_ty().to_string())));
            }
        }
        let cfgs: Vec<String> = { let mut v: Vec<String> = tcx.sess.config.iter().map(|(k, v)| match v { Some(v) => format!("{}=\"{}\"", k, v), None => k.to_string() }).collect(); v.sort(); v.iter().map(|s| esc(s)).collect() };
        let s = format!("{{\"crate\":{},\"target\":{{\"arch\":{},\"ptr\":{},\"endian\":{},\"triple\":{}}},\"cfg\":{},\"debug_assertions\":{},\"roots\":{{{}}},\"missing\":{},\"impls\":{},\"types\":{},\"insts\":{},\"allocs\":{}}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), esc(&tcx.sess.target.arch.to_string()), tcx.sess.target.pointer_width, esc(if tcx.data_layout.endian == rustc_abi::Endian::Little { "little" } else { "big" }), esc(&tcx.sess.opts.target_triple.to_string()),
            list(cfgs), tcx.sess.opts.debug_assertions, roots.join(","), list(missing), list(impls), list(cx.ty_out), list(cx.inst_out), list(cx.alloc_out));
        std::fs::write(out, s).expect("write VP_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // usable as RUSTC_WRAPPER-style: `mirdump rustc args..` or `mirdump args..`
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::install_ice_hook("https://example.invalid", |_| ());
    let _ = VariantIdx::from_u32(0);
    let code = rustc_driver::catch_with_exit_code(|| { rustc_driver::compiler_entrypoint(&args, &mut Cb) });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
